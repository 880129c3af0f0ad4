// Short and failing reads never make a file look smaller.
#include "readfault.hpp"
#include "pp_tables.hpp"
#include "gen_line.hpp"
#include "gen_dict.hpp"
#include "ppocr/image/image_from_file.hpp"

#include <set>

namespace pbt {

PropertyInfo const property_info{"P39",
    "a picture or data file of one of the kinds the library loads, or the input files of one of the six tools; read undisturbed, then with the system delivering pieces of 1..n bytes (n from 1 to more than a buffer), and with the k-th read failing or (pictures) the file ending early; "
    "non-trivial: a read was cut short or failed", no_setup};

namespace {
struct Outcome { bool ok = false; std::string value; };
struct Armed {
    int fired = 0;
    explicit Armed(readfault::Plan const& p) { readfault::plan = p; readfault::plan.reads = readfault::plan.bytes = 0; readfault::plan.fired = &fired; readfault::plan.active = true; }
    ~Armed() { readfault::plan.active = false; readfault::plan.fired = nullptr; }
};
int errors[] = {EIO, ESTALE, EINVAL, ENOMEM};
std::uint64_t piece(Source& s, std::size_t size) {
    switch (s.u(4)) {
        case 0: return s.range(1, 4);
        case 1: return s.range(1, 64);
        case 2: return s.range(1, 9000);
        default: return s.range(1, size + 1);
    }
}

/// loads a file undisturbed and disturbed
template<class Load> void in_process(Source& s, Case& c, char const* kind, std::string const& bytes, bool picture, unsigned lum, Load load) {
    std::string const path = scratch_dir() + "/f";
    write_file(path, bytes);
    c.mix(bytes); c.label(kind);
    auto attempt = [&] { Outcome r; try { r.value = load(path); r.ok = true; } catch (std::exception const&) {} return r; };
    Outcome const want = attempt();
    readfault::Plan p;
    // in pieces
    p.chunk = piece(s, bytes.size());
    p.random = s.bits32();
    c.mix(p.chunk); c.mix(p.random);
    std::int64_t reads;
    { Armed a(p); Outcome const got = attempt(); reads = readfault::plan.reads;
      PBT_REQ(c, got.ok == want.ok && got.value == want.value, kind << " delivered in pieces of at most " << p.chunk << " bytes is " << (got.ok ? "another value" : "refused") << ": " << quote(bytes)); }
    c.nontrivial = bytes.size() > 1;
    c.describe([&](auto& o) { o << kind << " in pieces of at most " << p.chunk << ": " << quote(bytes); });
    if (picture && s.flip()) { // the file shrinks after its size was asked for
        p.end_after = std::int64_t(s.u(bytes.size() + 1));
        c.mix(std::uint64_t(p.end_after));
        Armed a(p);
        Outcome const got = attempt();
        c.label("ends early");
        std::string const rest = bytes.substr(0, std::size_t(p.end_after));
        auto const d = ref::decode_image(rest, lum);
        if (!a.fired) { PBT_REQ(c, got.ok == want.ok && got.value == want.value, kind << ": another value although nothing happened"); return; }
        PBT_REQ(c, !got.ok || (d.ok && got.value == ref::show(d.pic, 1 << 30)), kind << " of " << bytes.size() << " bytes of which only " << p.end_after << " could be read is accepted: " << quote(bytes));
        return;
    }
    // a read fails
    if (reads < 1) return;
    p.fail_at = std::int64_t(s.flip() ? s.u(std::uint64_t(reads)) : std::uint64_t(reads) - 1 - s.u(std::min<std::uint64_t>(std::uint64_t(reads), 3)));
    p.error = errors[s.u(4)];
    if (s.chance(1, 4)) p.chunk = 0;
    c.mix(std::uint64_t(p.fail_at));
    Armed a(p);
    Outcome const got = attempt();
    if (a.fired) { PBT_REQ(c, !got.ok, kind << ": read " << p.fail_at << " of " << reads << " failed but loading reports success" << (got.value == want.value ? "" : " with another value") << ": " << quote(bytes)); c.label("failed read"); }
    else PBT_REQ(c, got.ok == want.ok && got.value == want.value, kind << ": another value without a failing read");
}
}

void property(Source& s, Case& c) {
    std::string const dir = scratch_dir() + "/";
    static char const* const names[] = {"write_glyphs", "normalize_glyphs", "write_datas", "make_trie_dictionary", "show_glyphs", "ocr2_extract_text"};
    if (s.chance(2, 3)) {
        switch (s.u(6)) {
            case 0: {
                ref::Pic const p = s.chance(1, 100) ? gen::any_pic(s) : gen::glyph_pic(s, 20, 20);
                unsigned const lum = unsigned(s.range(1, 255));
                in_process(s, c, "picture", gen::encode(s, p), true, lum, [&](std::string const& f) { return ref::show(pp::pic(ppocr::image_from_file(f.c_str(), lum)), 1 << 30); });
                break;
            }
            case 1: in_process(s, c, "glyph table", ref::glyph_file(gen::glyphs(s, 30)), false, 0, [](std::string const& f) { return pp::value(ppocr::utils::load_from_file<ppocr::ocr2::Glyphs>(f)); }); break;
            case 2: in_process(s, c, "glyph file", ref::glyph_file(gen::glyphs(s, 30)), false, 0, [](std::string const& f) { return pp::value(ppocr::utils::load_from_file<ppocr::loader2::Glyphs>(f)); }); break;
            case 3: {
                std::vector<ref::Features> f;
                for (unsigned n = unsigned(s.chance(1, 100) ? gen::huge(s, 300) : s.small(0, 8)); n; --n) f.push_back(ref::features(gen::glyph_pic(s, 12, 12)));
                in_process(s, c, "feature table", ref::feature_table(f), false, 0, [](std::string const& f) { return pp::value(ppocr::utils::load_from_file<ppocr::PpOcrDatas>(f)); });
                break;
            }
            case 4: {
                std::string t;
                for (unsigned n = unsigned(s.chance(1, 100) ? gen::huge(s, 1025) : s.small(0, 10)); n; --n) { t += gen::token(s, 9); for (unsigned k = 0; k < 4; ++k) t += ' ' + std::to_string(s.u(8)); t += '\n'; }
                in_process(s, c, "line positions", t, false, 0, [](std::string const& f) { return pp::value(ppocr::utils::load_from_file<ppocr::ocr2::WWordsLines>(f)); });
                break;
            }
            default: {
                std::ostringstream o;
                o << ppocr::spell::Dictionary(gen::word_list(s, s.chance(1, 50) ? 400 : 12, false));
                in_process(s, c, "dictionary", o.str(), false, 0, [](std::string const& f) { return pp::value(ppocr::utils::load_from_file<ppocr::spell::Dictionary>(f)); });
            }
        }
        return;
    }

    // a tool
    unsigned const tool = unsigned(s.u(6));
    std::vector<std::string> args, files;
    auto file = [&](std::string const& content) {
        files.push_back(content);
        args.push_back(dir + "f" + std::to_string(files.size()));
        write_file(args.back(), content);
        c.mix(content);
    };
    std::string text;
    std::vector<ref::Pic> crops;
    auto line = [&](unsigned max) {
        std::vector<ref::Pic> g;
        std::vector<gen::LineItem> items;
        unsigned const m = unsigned(s.range(0, max)), few = unsigned(s.range(1, 5));
        for (unsigned i = 0; i < m; ++i) { g.push_back(i >= few ? g[s.u(few)] : gen::connected(s, 16, 16)); items.push_back({i, unsigned(s.range(1, 8)), unsigned(s.u(4))}); }
        ref::Pic p = gen::compose(g, items, 1, 1);
        text.clear();
        for (auto& b : ref::segment(p)) { crops.push_back(ref::crop(p, b.x, b.y, b.w, b.h)); text += gen::token(s, 4) + "\n"; }
        return p;
    };
    unsigned const n = unsigned(s.range(1, 3));
    switch (tool) {
        case 0: for (unsigned k = 0; k < n; ++k) { file(gen::encode(s, line(s.chance(1, 4) ? 60 : 6))); file(text); args.push_back("font"); } break;
        case 1: for (unsigned k = 0; k < n; ++k) file(ref::glyph_file(gen::glyphs(s, s.chance(1, 6) ? 30 : 12))); break;
        case 2: file(ref::glyph_file(gen::glyphs(s, s.chance(1, 6) ? 30 : 12))); break;
        case 3: for (unsigned k = 0; k < n; ++k) { std::string t; for (auto& w : gen::word_list(s, s.chance(1, 8) ? 300 : 12, true)) t += w + "\n"; if (!t.empty() && s.flip()) t.pop_back(); file(t); } break;
        case 4: for (unsigned k = 0; k < n; ++k) file(gen::encode(s, line(6))); break;
        default: {
            ref::Pic const p = line(8);
            std::vector<ref::Glyph> v;
            std::vector<ref::Features> f;
            for (auto& q : crops) if (s.chance(3, 4)) { v.push_back({q, {{gen::token(s, 2), "f", 0}}}); f.push_back(ref::features(q)); }
            file(ref::glyph_file(v));
            file(ref::feature_table(f));
            file(gen::encode(s, p));
            if (n > 1) file("ab 0 1 2 2\nb 2 2 2 2\n");
            if (n > 2) { std::ostringstream o; o << ppocr::spell::Dictionary(gen::word_list(s, 12, false)); file(o.str()); }
        }
    }
    auto const good = run_tool(names[tool], args);
    PBT_REQ(c, good.status == 0, names[tool] << " fails undisturbed: " << good.status << ' ' << good.err.substr(0, 2000));
    std::size_t total = 0, at_least = 0;
    for (auto& f : files) total += f.size();
    std::uint64_t const chunk = piece(s, total), random = s.bits32();
    for (auto& f : files) at_least += (f.size() + chunk - 1) / chunk + 1;
    std::int64_t const k = s.chance(1, 4) ? -1 : std::int64_t(s.chance(1, 8) ? s.u(2 * at_least + 4) : s.flip() ? s.u(at_least + 2) : s.u(8));
    int const error = errors[s.u(4)];
    std::string const fault = "r" + std::to_string(chunk) + ',' + std::to_string(random) + ',' + std::to_string(k) + ',' + std::to_string(error);
    c.mix(fault);
    c.describe([&](auto& o) { o << names[tool] << " reading pieces of at most " << chunk << " bytes" << (k < 0 ? "" : ", read " + std::to_string(k) + " fails"); for (auto& f : files) o << ' ' << quote(f, 200); });
    auto const r = run_tool(names[tool], args, fault);
    c.label(names[tool]);
    c.nontrivial = total > 1;
    PBT_REQ(c, r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "sanitizer report: " << r.err.substr(0, 3000));
    if (!r.fired) {
        PBT_REQ(c, r.status == 0, names[tool] << " fails when its files are read in pieces of at most " << chunk << " bytes: " << r.status << ' ' << r.err.substr(0, 2000));
        std::string const a = tool == 5 ? good.out.substr(0, good.out.rfind("unrecognized_rate")) : good.out, b = tool == 5 ? r.out.substr(0, r.out.rfind("unrecognized_rate")) : r.out;
        PBT_REQ(c, a == b, names[tool] << " prints something else when its files are read in pieces of at most " << chunk << " bytes");
        return;
    }
    c.label("failed read");
    if (tool != 3) { PBT_REQ(c, r.status != 0, names[tool] << " reports success although read " << k << " failed"); return; }
    // the dictionary tool goes on, or gives up
    if (r.status != 0) return;
    std::set<std::string> all;
    std::vector<std::set<std::string>> words;
    for (auto& f : files) {
        std::set<std::string> w;
        std::istringstream i(f);
        for (std::string l; std::getline(i, l); ) if (!l.empty()) w.insert(l);
        words.push_back(w);
        all.insert(w.begin(), w.end());
    }
    ppocr::spell::Dictionary d;
    { std::istringstream i(r.out); i >> d; PBT_REQ(c, i.eof(), "the dictionary printed cannot be loaded"); }
    auto const list = pp::words(d);
    std::set<std::string> const got(list.begin(), list.end());
    for (auto& w : got) PBT_REQ(c, all.count(w), "word " << quote(w) << " is in no file");
    unsigned missing = 0;
    for (auto& ws : words) { bool m = false; for (auto& w : ws) m = m || !got.count(w); missing += m; }
    // words of the file that failed may also be listed in others
    PBT_REQ(c, missing <= 1, "words of more than one file are missing after one failing read");
    bool named = false;
    for (auto& a : args) named = named || r.err.find(a) != std::string::npos;
    PBT_REQ(c, named, "the file whose reading failed is not reported: " << quote(r.err));
}

}
