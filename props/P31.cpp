// A tool whose output cannot be written in full reports failure.
#include "gen_line.hpp"
#include "gen_dict.hpp"

namespace pbt {

PropertyInfo const property_info{"P31",
    "one of the six tools with valid input files of any size (outputs from 0 bytes to more than one buffer), run once undisturbed and then with its standard output failing: a device without space, a pipe nobody reads, or a file that cannot grow beyond a byte count drawn from 0 to the output's size; "
    "non-trivial: the undisturbed output is not empty", no_setup};

void property(Source& s, Case& c) {
    static char const* const names[] = {"write_glyphs", "normalize_glyphs", "write_datas", "make_trie_dictionary", "show_glyphs", "ocr2_extract_text"};
    unsigned const tool = unsigned(s.u(6));
    std::string const dir = scratch_dir() + "/";
    std::vector<std::string> args;
    std::string text, shown;
    // a line of glyph pictures and the words for them
    auto line = [&](unsigned max) {
        std::vector<ref::Pic> g;
        std::vector<gen::LineItem> items;
        unsigned const m = unsigned(s.range(0, max)), few = unsigned(s.range(1, 5));
        for (unsigned i = 0; i < m; ++i) { g.push_back(i >= few ? g[s.u(few)] : gen::connected(s, 16, 16)); items.push_back({i, unsigned(s.range(1, 8)), unsigned(s.u(4))}); }
        ref::Pic p = gen::compose(g, items, 1, 1);
        for (std::size_t i = ref::segment(p).size(); i; --i) text += gen::token(s, 4) + "\n";
        return p;
    };
    switch (tool) {
        case 0: case 4:
            for (unsigned k = unsigned(s.range(1, 3)); k; --k) {
                std::string const f = dir + "i" + std::to_string(k);
                text.clear();
                write_file(f, gen::encode(s, line(s.chance(1, 4) ? 60 : 6)));
                write_file(f + ".t", text);
                args.push_back(f);
                if (tool == 0) args.insert(args.end(), {f + ".t", "font"});
            }
            break;
        case 1: case 2:
            for (unsigned k = tool == 1 ? unsigned(s.range(1, 3)) : 1; k; --k) {
                std::string const f = dir + "g" + std::to_string(k);
                write_file(f, ref::glyph_file(s.chance(1, 6) ? gen::many_glyphs(s, gen::huge(s, 600), 3) : gen::glyphs(s, 12)));
                args.push_back(f);
            }
            break;
        case 3:
            for (unsigned k = unsigned(s.range(1, 3)); k; --k) {
                std::string const f = dir + "d" + std::to_string(k);
                std::string t;
                for (unsigned n = s.chance(1, 5) ? gen::huge(s, 1025) : unsigned(s.range(0, 12)); n; --n) t += gen::token(s, 6) + "\n";
                write_file(f, t);
                args.push_back(f);
            }
            break;
        default: {
            ref::Pic const p = line(8);
            std::vector<ref::Glyph> v;
            for (auto& b : ref::segment(p)) if (s.chance(3, 4)) v.push_back({ref::crop(p, b.x, b.y, b.w, b.h), {{gen::token(s, 2), "f", 0}}});
            write_file(dir + "g", ref::glyph_file(v));
            auto const r = run_tool("write_datas", {dir + "g"});
            PBT_REQ(c, r.status == 0, "write_datas: status " << r.status << ' ' << r.err.substr(0, 2000));
            write_file(dir + "d", r.out);
            write_file(dir + "i", gen::encode(s, p));
            args = {dir + "g", dir + "d", dir + "i"};
        }
    }
    for (auto& a : args) if (a[0] == '/') { std::string const t = read_file(a); c.mix(t); shown += ' ' + quote(t, 200); }
    c.mix(tool);
    auto const r = run_tool(names[tool], args);
    PBT_REQ(c, r.status == 0, names[tool] << ": status " << r.status << ' ' << r.err.substr(0, 2000));
    c.nontrivial = !r.out.empty();
    c.describe([&](auto& o) { o << names[tool] << " prints " << r.out.size() << " bytes for" << shown; });
    c.label(names[tool]);

    unsigned const mode = s.weighted({3, 1, 1});
    std::string fault = mode == 1 ? "full" : mode == 2 ? "pipe" : "";
    std::size_t limit = 0;
    if (mode == 0) {
        // near the ends, near buffer sizes or anywhere
        std::size_t const n = r.out.size();
        limit = s.flip() ? s.u(n + 1) : s.flip() ? n - s.u(std::min<std::size_t>(n, 3) + 1) : std::min<std::size_t>(n, 4096 * s.range(1, 4) - s.u(2));
        fault = std::to_string(limit);
    }
    c.mix(fault);
    auto const q = run_tool(names[tool], args, fault);
    if (mode == 0) {
        PBT_REQ(c, q.out == r.out.substr(0, limit), names[tool] << " with room for " << limit << " of " << r.out.size() << " bytes wrote something else: " << quote(q.out, 1000));
        if (limit == r.out.size()) PBT_REQ(c, q.status == 0, names[tool] << " had room for all its " << limit << " bytes but status is " << q.status << ' ' << q.err.substr(0, 1000));
        else PBT_REQ(c, q.status != 0, names[tool] << " could write only " << limit << " of " << r.out.size() << " bytes and reported success");
    }
    else if (!r.out.empty()) PBT_REQ(c, q.status != 0, names[tool] << " could write nothing (" << fault << ") and reported success");
    c.label(mode == 0 ? limit == r.out.size() ? "enough room" : "out of room" : fault);
}

}
