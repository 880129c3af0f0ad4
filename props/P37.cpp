// What a tool prints depends only on the contents of its inputs.
#include "gen_line.hpp"
#include "gen_dict.hpp"

#include <sys/stat.h>
#include <unistd.h>

namespace pbt {

PropertyInfo const property_info{"P37",
    "a valid command line of one of the six tools, run in a plain way and then with the same contents in other places: other file names (spaces, dots, leading dashes behind a directory, multi-byte characters, 200 characters, digits, names of options), symbolic links, one file for equal inputs, copies for one file, paths relative to another working directory, other locales and environment variables, data on or no standard input, no standard error, another program name; "
    "non-trivial: the plain run prints something", no_setup};

void property(Source& s, Case& c) {
    static char const* const names[] = {"write_glyphs", "normalize_glyphs", "write_datas", "make_trie_dictionary", "show_glyphs", "ocr2_extract_text"};
    unsigned const tool = unsigned(s.u(6));
    std::string const dir = scratch_dir() + "/";
    struct Arg { bool file; std::string value; };
    std::vector<Arg> args;
    auto line = [&](unsigned max, std::vector<ref::Pic>* crops) {
        std::vector<ref::Pic> g;
        std::vector<gen::LineItem> items;
        unsigned const m = unsigned(s.range(0, max)), few = unsigned(s.range(1, 5));
        for (unsigned i = 0; i < m; ++i) { g.push_back(i >= few ? g[s.u(few)] : gen::connected(s, 12, 12)); items.push_back({i, unsigned(s.range(1, 8)), unsigned(s.u(4))}); }
        ref::Pic p = gen::compose(g, items, 1, 1);
        if (crops) for (auto& b : ref::segment(p)) crops->push_back(ref::crop(p, b.x, b.y, b.w, b.h));
        return p;
    };
    unsigned const n = unsigned(s.chance(1, 40) ? s.range(5, 30) : s.range(1, 4));
    bool const option = (tool == 0 || tool == 4) && s.chance(1, 3);
    if (option) { args.push_back({false, "-l"}); args.push_back({false, "128"}); }
    switch (tool) {
        case 0: for (unsigned k = 0; k < n; ++k) {
            std::vector<ref::Pic> crops;
            ref::Pic const p = line(6, &crops);
            std::string t;
            for (std::size_t i = crops.size(); i; --i) t += gen::token(s, 4) + "\n";
            args.push_back({true, gen::encode(s, p)}); args.push_back({true, t}); args.push_back({false, gen::font(s)});
        } break;
        case 1: for (unsigned k = 0; k < n; ++k) args.push_back({true, k && s.chance(1, 4) ? args[s.u(k)].value : ref::glyph_file(gen::glyphs(s, 10))}); break;
        case 2: args.push_back({true, ref::glyph_file(gen::glyphs(s, 12))}); break;
        case 3: for (unsigned k = 0; k < n; ++k) { std::string t; for (auto& w : gen::word_list(s, 12, true)) t += w + "\n"; args.push_back({true, k && s.chance(1, 4) ? args[s.u(k)].value : t}); } break;
        case 4: for (unsigned k = 0; k < n; ++k) args.push_back({true, k && s.chance(1, 4) ? args[option ? 2 : 0].value : gen::encode(s, line(6, nullptr))}); break;
        default: {
            std::vector<ref::Pic> crops;
            ref::Pic const p = line(8, &crops);
            std::vector<ref::Glyph> v;
            std::vector<ref::Features> f;
            std::vector<std::string> words;
            for (auto& q : crops) if (s.chance(3, 4)) { v.push_back({q, {{gen::token(s, 2), "f", 0}}}); f.push_back(ref::features(q)); words.push_back(v.back().labels[0].word); }
            args.push_back({true, ref::glyph_file(v)}); args.push_back({true, ref::feature_table(f)}); args.push_back({true, gen::encode(s, p)});
            if (n > 1) args.push_back({true, words.empty() || s.flip() ? std::string() : words[0] + " 0 1 2 2\n"});
            if (n > 2) {
                std::string t;
                for (auto& w : words) t += w;
                write_file(dir + "words", t + "\nab\n");
                auto const r = run_tool("make_trie_dictionary", {dir + "words"});
                PBT_REQ(c, r.status == 0, "make_trie_dictionary: status " << r.status);
                args.push_back({true, r.out});
            }
        }
    }
    std::vector<std::string> plain;
    for (std::size_t i = 0; i < args.size(); ++i) {
        if (args[i].file) { plain.push_back(dir + "in" + std::to_string(i)); write_file(plain.back(), args[i].value); }
        else plain.push_back(args[i].value);
        c.mix(args[i].value);
    }
    c.mix(tool);
    auto const r = run_tool(names[tool], plain);
    PBT_REQ(c, r.status == 0, names[tool] << " fails with status " << r.status << ": " << r.err.substr(0, 2000));
    c.nontrivial = !r.out.empty();
    c.label(names[tool]);

    // the same contents elsewhere
    static char const* const odd[] = {"a b", "-l", "--help", "x.pbm", "x.pnm", "x.txt", "\xc3\xa9t\xc3\xa9", "1", "a'b\"c", ".hidden", "P1", "a:b", "*", "latin.txt", "a=b", "%s%n", "\\n", "-", "-"};
    std::string const sub = dir + "sub dir", cwd = sub + "/d";
    mkdir(sub.c_str(), 0700);
    mkdir(cwd.c_str(), 0700);
    std::map<std::string, std::string> by_content;
    std::vector<std::string> made, moved;
    std::set<std::string> taken;
    bool const outside = s.flip(), here = s.flip(); // another process: working directory, environment, streams
    for (std::size_t i = 0; i < args.size(); ++i) {
        if (!args[i].file) { moved.push_back(args[i].value); continue; }
        auto const it = by_content.find(args[i].value);
        if (it != by_content.end() && s.flip()) { moved.push_back(it->second); continue; }
        unsigned const kind = s.weighted({4, 2, 2});
        std::string name = kind == 1 ? std::string(s.range(100, 240), 'n') : odd[s.u(sizeof odd / sizeof *odd)];
        bool const dash = name == "-" && !taken.count("-"); // no tool takes that for its standard input
        if (dash) ;
        else if (name[0] == '*' || kind == 1) name += std::to_string(i); else if (i) { std::string const head = s.flip() ? std::string() : std::to_string(i); name = head.empty() ? name + std::to_string(i) : head + name; }
        while (!taken.insert(name).second || name.compare(0, 6, "target") == 0) name += "_";
        std::string path = sub + "/" + name;
        if (kind == 2) { write_file(sub + "/target" + std::to_string(i), args[i].value); unlink(path.c_str()); if (symlink(("target" + std::to_string(i)).c_str(), path.c_str())) fail("harness: cannot link"); made.push_back(sub + "/target" + std::to_string(i)); }
        else write_file(path, args[i].value);
        made.push_back(path);
        std::string use = path;
        switch (s.u(4)) {
            case 0: use = !outside ? path : !here ? "../" + name : name[0] == '-' && name != "-" ? "./" + name : name; break;
            case 1: use = sub + "/./d/../" + name; break;
            case 2: use = outside ? (here ? "./d/../" : "./.././") + name : dir + "/" + "sub dir//" + name; break;
            default: break;
        }
        by_content[args[i].value] = use;
        moved.push_back(use);
    }
    std::string how = "other names";
    RunResult q;
    if (!outside) q = run_tool(names[tool], moved);
    else {
        static char const* const streams[] = {"", " < data", " <&-", " 2>&-", " < data 2>&-"};
        static char const* const envs[][2] = {{"LC_ALL=C.UTF-8", "LANG=fr_FR.UTF-8"}, {"LC_ALL=POSIX", "HOME=/nonexistent"}, {"TMPDIR=/nonexistent", "COLUMNS=1"}, {"POSIXLY_CORRECT=1", "LANG=C.UTF-8"}, {"LANG=xx_YY.UTF-8", "LANGUAGE=xx"}, {"LC_ALL=tr_TR", "LC_NUMERIC=de_DE.UTF-8"}};
        std::string const bin = std::string(getenv("PBT_BIN")) + "/" + names[tool];
        std::string const from = here ? sub : cwd;
        std::string program = bin;
        if (s.chance(1, 3)) { program = from + "/renamed"; unlink(program.c_str()); if (symlink(bin.c_str(), program.c_str())) fail("harness: cannot link"); made.push_back(program); }
        write_file(from + "/data", "1 1 x\n1\na f 0\n");
        unsigned const st = unsigned(s.u(5)), ev = unsigned(s.u(6));
        std::string const script = std::string("exec \"$0\" \"$@\"") + streams[st];
        std::vector<std::string> a{"-u", "LC_ALL", "-u", "LANG", envs[ev][0], envs[ev][1], "/bin/sh", "-c", script, program};
        a.insert(a.end(), moved.begin(), moved.end());
        q = run_program("/usr/bin/env", a, from);
        how = std::string("from another directory with ") + envs[ev][0] + ' ' + envs[ev][1] + (streams[st][0] ? std::string(" and streams") + streams[st] : "");
        c.label("another process");
        c.mix(st * 6 + ev);
    }
    auto shown = [&] { std::string t = names[tool]; for (auto& x : moved) t += ' ' + quote(x.size() > 60 ? x.substr(x.size() - 60) : x); for (auto& x : args) if (x.file) t += "\n  " + quote(x.value, 300); return t; };
    c.describe([&](auto& o) { o << how << ": " << shown(); });
    for (auto& x : moved) c.mix(x.substr(std::min(x.size(), x.rfind('/'))));
    for (auto& x : made) unlink(x.c_str());
    PBT_REQ(c, q.status == 0, how << ": " << shown() << "\n ends with status " << q.status << ' ' << q.err.substr(0, 1500));
    PBT_REQ(c, q.out == r.out, how << ": " << shown() << "\n printed " << quote(q.out, 1000) << " instead of " << quote(r.out, 1000));
}

}
