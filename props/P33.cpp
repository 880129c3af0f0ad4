// Wrong command lines and unreadable inputs are refused.
#include "gen_line.hpp"
#include "gen_dict.hpp"

#include <sys/stat.h>

namespace pbt {

PropertyInfo const property_info{"P33",
    "a valid command line of one of the six tools (1..4, now and then up to 30 inputs, with and without the luminance option, optional files present or not), run as it is and then with one thing wrong: a number of arguments the tool does not take, a luminance that is no number, an input file that is missing, a directory, or malformed; "
    "non-trivial: every case", no_setup};

void property(Source& s, Case& c) {
    enum { WriteGlyphs, Normalize, WriteDatas, Trie, Show, Extract };
    static char const* const names[] = {"write_glyphs", "normalize_glyphs", "write_datas", "make_trie_dictionary", "show_glyphs", "ocr2_extract_text"};
    unsigned const tool = unsigned(s.u(6));
    std::string const dir = scratch_dir() + "/";
    enum Kind { Image, Text, Glyphs, Datas, Info, Dict, Words, Other };
    struct Arg { Kind kind; std::string value; };
    std::vector<Arg> args;
    unsigned number = 0;
    auto file = [&](Kind k, std::string const& content) {
        std::string const p = dir + "f" + std::to_string(number++);
        write_file(p, content);
        args.push_back({k, p});
        c.mix(content);
    };
    auto line = [&](std::vector<ref::Pic>& crops) {
        std::vector<ref::Pic> g;
        std::vector<gen::LineItem> items;
        for (unsigned i = 0, m = unsigned(s.range(0, 4)); i < m; ++i) { g.push_back(gen::connected(s, 10, 10)); items.push_back({i, unsigned(s.range(1, 8)), unsigned(s.u(4))}); }
        ref::Pic p = gen::compose(g, items, 1, 1);
        for (auto& b : ref::segment(p)) crops.push_back(ref::crop(p, b.x, b.y, b.w, b.h));
        return p;
    };
    bool const option = (tool == WriteGlyphs || tool == Show) && s.flip();
    std::vector<std::string> opt;
    if (option) opt = {"-l", std::to_string(s.range(0, 300))};
    unsigned const n = unsigned(s.chance(1, 40) ? s.range(5, 30) : s.range(1, 4));
    switch (tool) {
        case WriteGlyphs:
            for (unsigned k = 0; k < n; ++k) {
                std::vector<ref::Pic> crops;
                std::string const image = gen::encode(s, line(crops));
                unsigned const lum = option ? unsigned(std::stoul(opt[1])) : 128;
                std::size_t const count = ref::segment(ref::decode_image(image, lum).pic).size();
                std::string t;
                for (std::size_t i = 0; i < count; ++i) t += gen::token(s, 3) + "\n";
                file(Image, image);
                file(Text, t);
                args.push_back({Other, "font"});
            }
            break;
        case Show: for (unsigned k = 0; k < n; ++k) { std::vector<ref::Pic> crops; file(Image, gen::encode(s, line(crops))); } break;
        case Normalize: for (unsigned k = 0; k < n; ++k) file(Glyphs, ref::glyph_file(gen::glyphs(s, 5))); break;
        case WriteDatas: file(Glyphs, ref::glyph_file(gen::glyphs(s, 8))); break;
        case Trie: for (unsigned k = 0; k < n; ++k) { std::string t; for (auto& w : gen::word_list(s, 8, true)) t += w + "\n"; file(Words, t); } break;
        default: {
            std::vector<ref::Pic> crops;
            ref::Pic const p = line(crops);
            std::vector<ref::Glyph> v;
            std::vector<ref::Features> f;
            for (auto& q : crops) if (s.chance(3, 4)) { v.push_back({q, {{gen::token(s, 2), "f", 0}}}); f.push_back(ref::features(q)); }
            file(Glyphs, ref::glyph_file(v));
            file(Datas, ref::feature_table(f));
            file(Image, gen::encode(s, p));
            if (n > 1) file(Info, "ab 0 1 2 2\n");
            if (n > 2) {
                std::vector<std::string> one;
                std::string const words = dir + "words";
                write_file(words, "ab\nb\n");
                auto const r = run_tool("make_trie_dictionary", {words});
                PBT_REQ(c, r.status == 0, "make_trie_dictionary: status " << r.status);
                file(Dict, r.out);
            }
        }
    }
    auto command = [&] { std::vector<std::string> a = opt; for (auto& x : args) a.push_back(x.value); return a; };
    c.nontrivial = true;
    auto const good = run_tool(names[tool], command());
    PBT_REQ(c, good.status == 0, names[tool] << " fails on a correct command line with status " << good.status << ": " << good.err.substr(0, 2000));

    // one thing wrong
    std::string what;
    std::size_t const at = s.u(args.size());
    Arg& a = args[at];
    unsigned const mode = s.weighted({2, 2, 1, 4});
    if (mode == 0 || (mode == 1 && !option) || (mode != 1 && tool == Trie)) {
        unsigned const have = unsigned(args.size());
        switch (tool) { // a count the tool does not take
            case WriteGlyphs: if (s.chance(1, 3)) { args.clear(); if (s.flip()) opt.clear(); } else if (s.flip()) args.resize(have - s.range(1, 2)); else for (unsigned k = unsigned(s.range(1, 2)); k; --k) args.push_back({Other, "font"}); break;
            case WriteDatas: if (s.flip()) args.clear(); else args.push_back(args[0]); break;
            case Extract: args.resize(s.u(3)); break;
            default: args.clear(); if (s.flip()) opt.clear();
        }
        what = "wrong number of arguments";
    }
    else if (mode == 1) {
        static char const* const bad[] = {"", "x", "12x", "x12", "1 2", "0x80", "1.5", "--", "99999999999999999999999", "128,"};
        opt[1] = bad[s.u(10)];
        what = "luminance " + quote(opt[1]);
    }
    else {
        // an input of the command line
        Arg* b = &a;
        while (b->kind == Other) b = &args[(std::size_t(b - args.data()) + args.size() - 1) % args.size()];
        if (mode == 2) {
            bool const directory = s.flip();
            b->value = dir + "dir";
            if (directory) mkdir(b->value.c_str(), 0700); else b->value = s.flip() ? dir + "nosuchfile" : dir + "nodir/file";
            what = directory ? "directory as input" : "missing input";
        }
        else {
            std::string t = read_file(b->value);
            switch (b->kind) {
                case Image: t = s.flip() ? "P5" + t.substr(2) : s.flip() ? t.substr(0, 5) : ""; break;
                case Text: t += t.empty() || s.flip() ? "\nextra\n" : "extra"; if (t.find_first_not_of("\n") != 0 || t.back() != '\n') t += " more"; break;
                case Glyphs: t = tool == Extract ? t + "1 1 x\none\n" : s.flip() ? "x " + t : t + "7 y --\n"; break;
                case Datas: t = "x" + t; break;
                case Info: t = s.flip() ? t + "ab x\n" : "ab - 1 1 1\n" + t; break;
                default: t = "z" + t; break;
            }
            write_file(b->value, t);
            c.mix(t);
            what = "malformed input";
        }
        what += " number " + std::to_string(b - args.data());
    }
    auto const av = command();
    c.label(what.substr(0, what.find_first_of("0123456789\"")));
    c.label(names[tool]);
    c.mix(what); c.mix(tool);
    auto shown = [&] { std::string r = names[tool]; for (auto& x : av) { r += ' ' + quote(x[0] == '/' ? x.substr(x.rfind('/') + 1) : x); if (x[0] == '/') r += '=' + quote(read_file(x), 150); } return r; };
    c.describe([&](auto& o) { o << what << ": " << shown(); });
    auto const r = run_tool(names[tool], av);
    PBT_REQ(c, r.status != 0, what << " is reported as success: " << shown() << " printed " << quote(r.out, 600));
    PBT_REQ(c, r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "sanitizer report: " << r.err.substr(0, 3000));
}

}
