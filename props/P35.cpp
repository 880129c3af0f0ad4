// The tables shipped with the repository are what its tools learn from the shipped images, and they read lines.
#include "pp_recog.hpp"
#include "gen_line.hpp"

#include <dirent.h>
#include <sys/stat.h>

namespace pbt {

PropertyInfo const property_info{"P35",
    "the shipped Latin glyph, data and line-position tables (5465 glyphs): recognition of their pictures, changed pictures, boxes of the shipped font images and drawn pictures against an exhaustive scan of the table; lines of glyphs of one shipped font put on a base line and given to the extraction tool; "
    "and, in about 1 of 600 cases, all shipped font images learned by the tools, compared with the shipped tables, and used to read the shipped sample images; non-trivial: at least one candidate is expected", no_setup};

namespace {
std::string root() { char const* r = getenv("PBT_REPO"); return r ? r : "/repo"; }

struct Shipped {
    std::vector<ref::Glyph> g;
    std::vector<ref::Features> f;
    std::string glyph_text, data_text, info_text;
    ref::LineInfo info;
    std::vector<std::string> fonts;
    std::map<std::string, std::vector<std::size_t>> by_font;
    std::unique_ptr<pp::World> w;

    Shipped() {
        glyph_text = read_file(root() + "/resources/glyphs/normalized-glyphs-latin.txt");
        data_text = read_file(root() + "/resources/datas/latin.txt");
        info_text = read_file(root() + "/resources/words_lines-latin.txt");
        auto p = ref::parse_glyphs(glyph_text);
        if (!p.ok || p.v.empty()) fail("the shipped glyph table cannot be parsed");
        g = p.v;
        for (auto& x : g) f.push_back(ref::features(x.pic));
        std::istringstream i(info_text);
        std::string word;
        ref::Lines l;
        while (i >> word >> l.ascent >> l.cap >> l.mean >> l.base) if (word.size() <= 8) info.emplace(word, l);
        for (std::size_t k = 0; k < g.size(); ++k) for (auto& l : g[k].labels) {
            auto& v = by_font[l.font];
            if (v.empty()) fonts.push_back(l.font);
            v.push_back(k);
        }
    }
};
Shipped& shipped() { static Shipped s; return s; }

/// sorted names in a directory
std::vector<std::string> names(std::string const& dir) {
    std::vector<std::string> r;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}
bool ends(std::string const& s, std::string const& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

/// what the learning script does, each step in one command; gives glyph and data files
std::vector<std::string> images(std::string const& alphabet) {
    std::vector<std::string> a{"-l", "100"};
    std::string const dir = root() + "/resources/fonts/" + alphabet;
    for (auto& d : names(dir + "/generated")) for (auto& f : names(dir + "/generated/" + d)) if (ends(f, ".pnm"))
        a.insert(a.end(), {dir + "/generated/" + d + "/" + f, dir + "/letters", d});
    for (auto& d : names(dir + "/mano")) for (auto& f : names(dir + "/mano/" + d)) if (ends(f, ".pbm")) {
        std::string const p = dir + "/mano/" + d + "/" + f;
        a.insert(a.end(), {p, p.substr(0, p.size() - 3) + "txt", d});
    }
    return a;
}
void learn(Case& c, unsigned which) {
    static char const* const sets[] = {"latin", "cyrillic", "latin-cyrillic"};
    std::string const dir = scratch_dir() + "/";
    std::vector<std::string> files;
    for (unsigned k = 0; k < 2; ++k) if (which == 2 || which == k) {
        auto const r = run_tool("write_glyphs", images(sets[k]));
        PBT_REQ(c, r.status == 0, "learning " << sets[k] << ": status " << r.status << ' ' << r.err.substr(0, 1000));
        files.push_back(dir + sets[k]);
        write_file(files.back(), r.out);
    }
    auto const n = run_tool("normalize_glyphs", files);
    PBT_REQ(c, n.status == 0, "normalising " << sets[which] << ": status " << n.status << ' ' << n.err.substr(0, 1000));
    std::string const shipped_glyphs = read_file(root() + "/resources/glyphs/normalized-glyphs-" + sets[which] + ".txt");
    if (which == 0) PBT_REQ(c, n.out == shipped_glyphs, "learning the shipped images of " << sets[which] << " gives another glyph table than the shipped one");
    write_file(dir + "glyphs", n.out);
    auto const d = run_tool("write_datas", {dir + "glyphs"});
    PBT_REQ(c, d.status == 0, "data of " << sets[which] << ": status " << d.status << ' ' << d.err.substr(0, 1000));
    PBT_REQ(c, d.out == read_file(root() + "/resources/datas/" + sets[which] + ".txt"), "learning the shipped images of " << sets[which] << " gives another data table than the shipped one");
    write_file(dir + "datas", d.out);
    // the samples
    struct Sample { unsigned sets; char const* image; bool info; char const* text; };
    static Sample const samples[] = {
        {1 | 4, "tests/images/computer.pnm", false, "Computer"}, {1 | 2 | 4, "tests/images/image1.pbm", false, "a"}, {1 | 4, "tests/images/image2.pnm", false, "e"},
        {4, "tests/cyrillic.negate.pnm", true, "\xd0\xbfp\xd0\xb8\xd0\xbc" "e\xd1\x87" "a\xd0\xbd\xd0\xb8" "e - Bloc-notes"},
    };
    for (auto& x : samples) if (x.sets >> which & 1) {
        std::vector<std::string> a{dir + "glyphs", dir + "datas", root() + "/" + x.image};
        if (x.info) a.push_back(root() + "/resources/words_lines-" + sets[which] + ".txt");
        auto const r = run_tool("ocr2_extract_text", a);
        std::string const want = std::string(" ## result: ") + x.text + "\nunrecognized_count: 0\n";
        PBT_REQ(c, r.status == 0 && r.out.find(want) != std::string::npos, x.image << " with the tables of " << sets[which] << ": status " << r.status << ", printed " << quote(r.out.substr(std::min(r.out.size(), r.out.rfind(" ## result")))) << " instead of " << quote(want));
    }
}
ref::Pic font_box(Source& s, std::string& from) {
    static auto const all = [] { auto v = images("latin"); v.erase(v.begin(), v.begin() + 2); return v; }();
    std::size_t const k = 3 * s.u(all.size() / 3);
    from = all[k];
    auto const d = ref::decode_image(read_file(all[k]), 100);
    auto const b = ref::segment(d.pic);
    if (b.empty()) return {1, 1, "x"};
    auto const& x = b[s.u(b.size())];
    return ref::crop(d.pic, x.x, x.y, x.w, x.h);
}
}

void property(Source& s, Case& c) {
    unsigned const kind = s.weighted({1183, 15, 2});
    if (kind == 2) {
        unsigned const which = unsigned(s.u(3));
        static std::string failed[3];
        static bool done[3];
        c.mix(~which);
        c.nontrivial = true;
        c.label("all images learned");
        c.describe([&](auto& o) { o << "learning set " << which; });
        if (!done[which]) {
            done[which] = true;
            try { learn(c, which); } catch (Failure const& e) { failed[which] = e.what(); }
        }
        if (!failed[which].empty()) fail(failed[which]);
        return;
    }
    auto& t = shipped();
    if (!t.w) {
        PBT_REQ(c, ref::glyph_file(t.g) == t.glyph_text, "the shipped glyph table is not in the written form");
        PBT_REQ(c, ref::feature_table(t.f) == t.data_text, "the shipped data table does not hold the features of the shipped glyphs");
        t.w.reset(new pp::World(t.g, t.f, true));
        std::ostringstream o;
        o << t.w->datas;
        PBT_REQ(c, o.str() == t.data_text, "the shipped data table loaded and saved is another one");
    }
    auto recognise = [&](ref::Pic const& q, std::string const& what) {
        auto const want = ref::recognise(t.f, t.w->words, ref::features(q));
        auto const got = t.w->recognise(q);
        auto const e = ref::check_recognition(want, got);
        PBT_REQ(c, e.empty(), what << ' ' << ref::show(q, 600) << ": " << e);
        if (!want.groups.empty()) c.nontrivial = true;
        return got;
    };
    if (kind == 0) {
        unsigned const n = unsigned(s.range(1, 3));
        for (unsigned k = 0; k < n; ++k) {
            std::size_t const i = s.u(t.g.size());
            ref::Pic q = t.g[i].pic;
            unsigned const how = s.weighted({3, 5, 3, 1});
            std::string what = "shipped glyph " + std::to_string(i);
            if (how == 1) { q = gen::mutate(s, q, 3); what += " changed"; }
            else if (how == 2) { q = font_box(s, what); if (s.flip()) { q = gen::mutate(s, q, 2); what += " changed"; } }
            else if (how == 3) { q = gen::any_pic(s, 20, 20); what = "drawn picture"; }
            pp::mix(c, q);
            c.describe([&](auto& o) { o << what << ' ' << ref::show(q, 600); });
            auto const got = recognise(q, what);
            if (how == 0) {
                bool in = false;
                for (auto j : got) if (t.w->words[j] == t.w->words[i]) in = true;
                PBT_REQ(c, in, "glyph " << i << " is not recognised as itself: " << ref::show(q, 600));
            }
            c.label(how == 0 ? "itself" : how == 1 ? "changed" : how == 2 ? "font image" : "drawn");
        }
        return;
    }
    // a line of one font
    auto const& font = s.pick(t.fonts);
    auto const& in_font = t.by_font[font];
    std::vector<ref::Pic> pics;
    std::vector<gen::LineItem> items;
    std::string drawn;
    for (unsigned i = 0, m = unsigned(s.range(1, 14)); i < m; ++i) {
        std::size_t const k = s.chance(1, 10) ? s.u(t.g.size()) : s.pick(in_font);
        auto const& p = t.g[k].pic;
        drawn += t.g[k].labels[0].word + ' ';
        auto const it = t.info.find(t.g[k].labels[0].word);
        unsigned base = 60;
        if (it != t.info.end()) base = it->second.base == 4 ? 63 : it->second.base == 1 ? 52 : 60;
        if (s.chance(1, 8)) base += unsigned(s.u(3));
        pics.push_back(p);
        items.push_back({i, i ? s.chance(1, 4) ? unsigned(s.range(5, 9)) : unsigned(s.range(1, 3)) : unsigned(s.u(7)), p.h <= base ? base - p.h : 0});
    }
    ref::Pic const pic = gen::compose(pics, items, unsigned(s.u(4)), 0);
    std::string const image = gen::encode(s, pic);
    bool const with_info = s.flip();
    c.mix(image); c.mix(with_info);
    c.describe([&](auto& o) { o << "line of " << drawn << "in " << font << (with_info ? ", with line positions" : ""); });
    auto const boxes = ref::segment(pic);
    std::vector<ref::Cands> v;
    for (auto& b : boxes) {
        ref::Pic const q = ref::crop(pic, b.x, b.y, b.w, b.h);
        ref::Cands l;
        for (auto i : recognise(q, "box of a line")) for (std::size_t k = 0; k < t.g[i].labels.size(); ++k) l.push_back({t.g[i].labels[k].word, t.w->glyphs[i][k].font, 0});
        v.push_back(l);
    }
    write_file(scratch_dir() + "/line", image);
    std::string const r0 = root() + "/resources/";
    std::vector<std::string> args{r0 + "glyphs/normalized-glyphs-latin.txt", r0 + "datas/latin.txt", scratch_dir() + "/line"};
    if (with_info) args.push_back(r0 + "words_lines-latin.txt");
    auto const r = run_tool("ocr2_extract_text", args);
    PBT_REQ(c, r.status == 0, "status " << r.status << ' ' << r.err.substr(0, 2000));
    if (with_info) ref::filter_lines(v, t.info, boxes);
    ref::filter_fonts(v);
    std::set<std::size_t> spaces;
    unsigned x = 0;
    for (std::size_t i = 0; i < boxes.size(); ++i) { if (boxes[i].x > x + 4) spaces.insert(i); x = boxes[i].x + boxes[i].w; }
    auto const want = ref::assemble(v, spaces, {});
    std::ostringstream o;
    o << " ## result: " << want.text << "\nunrecognized_count: " << want.unknown << "\ncount: " << v.size() << "\nunrecognized_rate: " << (v.empty() ? 0. : double(want.unknown * 100) / double(v.size())) << "\n";
    std::size_t const at = r.out.rfind(" ## result: ");
    PBT_REQ(c, at != std::string::npos, "no result in " << quote(r.out, 1000));
    PBT_REQ(c, r.out.substr(at) == o.str(), "line of " << drawn << "in " << font << (with_info ? " with line positions" : "") << ": printed " << quote(r.out.substr(at)) << " instead of " << quote(o.str()));
    c.label(with_info ? "line with positions" : "line");
}

}
