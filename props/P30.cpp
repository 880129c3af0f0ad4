// The learn-then-read pipeline reads back the text it was taught.
#include "pp.hpp"
#include "gen_line.hpp"
#include "gen_dict.hpp"

namespace pbt {

PropertyInfo const property_info{"P30",
    "alphabets of 1..12 (now and then 90) pictures (now and then of up to 90x90, alike down to the last rows) that the numeric features tell apart, each with its own word, taught in 1..3 files (in any order, several times, in several fonts), and a text of 1..16 of them with gaps of 1..4 inside and 5..9 between words, read back with the whole tool chain with and without a dictionary and line positions; "
    "non-trivial: at least two letters and a text of at least two glyphs", no_setup};

namespace {
bool alike(ref::Features const& a, ref::Features const& b) {
    for (unsigned k = 0; k < ref::num_count; ++k) if (ref::sim_num(a.num[k], b.num[k], ref::num_range(k)) != 100) return false;
    return true;
}
}

void property(Source& s, Case& c) {
    static unsigned const caps[4] = {2, 4, 8, 12};
    struct Letter { ref::Pic p; ref::Features f; std::string w; };
    std::vector<Letter> abc;
    bool const big = s.chance(1, 40), many = !big && s.chance(1, 60);
    unsigned const big_w = unsigned(s.range(40, 90)), big_h = unsigned(s.range(40, 90));
    for (unsigned n = many ? unsigned(s.range(20, 90)) : unsigned(s.range(1, caps[s.size_class()])); n; --n) {
        Letter l;
        if (big) { // large letters, alike down to their last rows
            l.p = ref::blank(big_w, big_h);
            unsigned const from = abc.empty() ? 0 : unsigned(big_h - s.range(1, big_h / 2));
            if (from) l.p = abc[0].p;
            for (unsigned y = from, run = 0, w = 1; y < big_h; ++y) {
                if (!run--) { run = unsigned(s.range(0, 14)); w = unsigned(s.range(1, big_w)); }
                for (unsigned x = 0; x < big_w; ++x) l.p.px[std::size_t(y) * big_w + x] = y == 0 || x < w ? 'x' : '-';
            }
        }
        else if (many && s.chance(1, 5)) { l.p = ref::blank(unsigned(s.range(1, 2)), unsigned(s.range(1, 16))); std::fill(l.p.px.begin(), l.p.px.end(), 'x'); } // bars
        else l.p = abc.empty() || !s.chance(1, 3) ? gen::connected(s, 16, 16) : gen::tighten(gen::mutate(s, s.pick(abc).p, 3));
        if (ref::segment(l.p).size() != 1) continue;
        l.f = ref::features(l.p);
        bool near = false;
        for (auto& x : abc) near = near || alike(x.f, l.f);
        if (near) continue;
        static char const* const pool[] = {"a", "b", "c", ".", "-", "ab", "\xc3\xa9", "'", "A"};
        l.w = s.chance(2, 3) ? pool[s.u(9)] : gen::token(s, 3);
        abc.push_back(l);
    }
    if (abc.empty()) discard();

    // teaching: every letter at least once
    std::string const dir = scratch_dir() + "/";
    unsigned const nfiles = unsigned(s.range(1, 3));
    auto teach = [&](std::string const& tag) {
        std::vector<std::vector<std::size_t>> lines(nfiles);
        std::vector<std::size_t> all;
        for (std::size_t i = 0; i < abc.size(); ++i) for (unsigned k = unsigned(s.small(1, 3)); k; --k) all.push_back(i);
        for (std::size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[s.u(i)]);
        for (auto i : all) lines[s.u(nfiles)].push_back(i);
        std::vector<std::string> glyph_files;
        std::vector<std::string> args;
        for (unsigned k = 0; k < nfiles; ++k) {
            std::vector<ref::Pic> p;
            std::vector<gen::LineItem> items;
            std::string text;
            for (auto i : lines[k]) { p.push_back(abc[i].p); items.push_back({p.size() - 1, unsigned(s.range(1, 4)), unsigned(s.u(4))}); text += abc[i].w + (s.flip() ? "\n" : " "); }
            write_file(dir + "t" + std::to_string(k), gen::encode(s, gen::compose(p, items, unsigned(s.u(3)), unsigned(s.u(3)))));
            write_file(dir + "w" + std::to_string(k), text);
            args.insert(args.end(), {dir + "t" + std::to_string(k), dir + "w" + std::to_string(k), s.flip() ? "f" : "g"});
        }
        if (s.flip()) { // one run for all lines
            auto const r = run_tool("write_glyphs", args);
            PBT_REQ(c, r.status == 0, "write_glyphs: status " << r.status << ' ' << r.err.substr(0, 2000));
            glyph_files.push_back(dir + "g");
            write_file(glyph_files.back(), r.out);
        }
        else for (unsigned k = 0; k < nfiles; ++k) {
            auto const r = run_tool("write_glyphs", {args[k * 3], args[k * 3 + 1], args[k * 3 + 2]});
            PBT_REQ(c, r.status == 0, "write_glyphs: status " << r.status << ' ' << r.err.substr(0, 2000));
            glyph_files.push_back(dir + "g" + std::to_string(k));
            write_file(glyph_files.back(), r.out);
        }
        auto const r = run_tool("normalize_glyphs", glyph_files);
        PBT_REQ(c, r.status == 0, "normalize_glyphs: status " << r.status << ' ' << r.err.substr(0, 2000));
        write_file(dir + tag + ".glyphs", r.out);
        auto const d = run_tool("write_datas", {dir + tag + ".glyphs"});
        PBT_REQ(c, d.status == 0, "write_datas: status " << d.status << ' ' << d.err.substr(0, 2000));
        write_file(dir + tag + ".datas", d.out);
    };
    // the text
    static unsigned const tcaps[4] = {3, 6, 10, 16};
    std::vector<ref::Pic> p;
    std::vector<gen::LineItem> items;
    std::string text, word;
    std::vector<std::string> words;
    unsigned const m = many ? unsigned(s.range(30, 200)) : s.chance(1, 60) ? gen::huge(s, 300) : unsigned(s.range(1, tcaps[s.size_class()]));
    for (unsigned k = 0; k < m; ++k) {
        auto const& l = s.pick(abc);
        p.push_back(l.p);
        bool const space = k && s.chance(1, 4);
        items.push_back({k, unsigned(k == 0 ? s.u(8) : space ? s.range(5, 9) : s.range(1, 4)), unsigned(s.u(5))});
        if (space) { text += ' '; words.push_back(word); word.clear(); }
        text += l.w; word += l.w;
    }
    words.push_back(word);
    ref::Pic const pic = gen::compose(p, items, unsigned(s.u(6)), unsigned(s.u(3)));
    std::string const image = gen::encode(s, pic);
    for (auto& l : abc) { pp::mix(c, l.p); c.mix(l.w); }
    c.mix(text); pp::mix(c, pic);
    c.describe([&](auto& o) { for (auto& l : abc) o << quote(l.w) << ' ' << ref::show(l.p, 200) << ' '; o << "text " << quote(text) << " line " << ref::show(pic, 2000); });
    c.nontrivial = abc.size() > 1 && m > 1;

    write_file(dir + "line", image);
    write_file(dir + "empty", "");
    std::string wt;
    for (auto& w : words) wt += w + "\n";
    write_file(dir + "words", wt);
    auto const dr = run_tool("make_trie_dictionary", {dir + "words"});
    PBT_REQ(c, dr.status == 0, "make_trie_dictionary: status " << dr.status << ' ' << dr.err.substr(0, 2000));
    write_file(dir + "dict", dr.out);
    std::string info;
    std::set<std::string> listed;
    for (auto& l : abc) if (listed.insert(l.w).second) info += l.w + " 0 0 " + std::to_string(s.u(2) * 2) + ' ' + std::to_string(s.u(2) * 2) + '\n';
    write_file(dir + "info", info);

    unsigned const rounds = s.chance(1, 3) ? 2 : 1;
    for (unsigned round = 0; round < rounds; ++round) {
        std::string const tag = round ? "b" : "a";
        teach(tag);
        unsigned const option = unsigned(s.u(3));
        std::vector<std::string> args{dir + tag + ".glyphs", dir + tag + ".datas", dir + "line"};
        if (option == 1) args.push_back(dir + "info");
        if (option == 2) args.insert(args.end(), {s.flip() ? dir + "info" : dir + "empty", dir + "dict"});
        auto const r = run_tool("ocr2_extract_text", args);
        PBT_REQ(c, r.status == 0, "ocr2_extract_text: status " << r.status << ' ' << r.err.substr(0, 2000));
        std::size_t const at = r.out.rfind(" ## result: ");
        PBT_REQ(c, at != std::string::npos, "no result in " << quote(r.out));
        std::string const want = " ## result: " + text + "\nunrecognized_count: 0\n";
        // a margin of more than 4 columns is no space
        PBT_REQ(c, r.out.compare(at, want.size(), want) == 0, "taught way " << round << ", option " << option << ": printed " << quote(r.out.substr(at)) << " instead of " << quote(want));
        c.label(option == 2 ? "dictionary" : option == 1 ? "line positions" : "plain");
    }
    c.label(words.size() > 1 ? "several words" : "one word");
}

}
