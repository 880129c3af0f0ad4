// The learning script rebuilds the glyph and data files from the font images, or leaves them alone.
#include "gen_line.hpp"

#include <sys/stat.h>

namespace pbt {

PropertyInfo const property_info{"P32",
    "trees of font images: 1..3 generated fonts per alphabet sharing one letter list, 1..2 hand-made fonts per alphabet with their own word lists, pictures in every encoding, absolute and relative tool paths, files of an earlier run present or not; in 1 of 4 cases one word list or image is wrong; "
    "non-trivial: at least two different glyphs, or a wrong input", no_setup};

namespace {
void tree(std::string const& path) { // mkdir -p below the scratch directory
    for (std::size_t i = scratch_dir().size() + 1; i <= path.size(); ++i) if (i == path.size() || path[i] == '/') mkdir(path.substr(0, i).c_str(), 0700);
}
using Want = std::map<ref::Pic, std::set<ref::Label>>;
}

void property(Source& s, Case& c) {
    static unsigned counter = 0;
    std::string const base = scratch_dir() + "/repo" + std::to_string(++counter);
    tree(base + "/resources/glyphs");
    tree(base + "/resources/datas");
    char const* repo = getenv("PBT_REPO");
    write_file(base + "/learning", read_file(std::string(repo ? repo : "/repo") + "/learning"));
    chmod((base + "/learning").c_str(), 0700);
    static char const* const fonts[] = {"arial-8", "a", "Times_New_Roman-12", "z+b", "noname", "b.c", "Liberation_Sans_Narrow-Bold-Italic_at_twelve_points_with_a_long_name_that_goes_on_and_on_and_on_until_it_ends-1", "Liberation_Sans_Narrow-Bold-Italic_at_twelve_points_with_a_long_name_that_goes_on_and_on_and_on_until_it_ends-2"};
    std::string shown;
    // one line picture with its boxes
    auto picture = [&](unsigned letters, std::vector<ref::Pic>& crops, std::string& file) {
        std::vector<ref::Pic> g;
        std::vector<gen::LineItem> items;
        for (unsigned i = 0; i < letters; ++i) { g.push_back(gen::connected(s, 12, 12)); items.push_back({i, unsigned(s.range(1, 6)), unsigned(s.u(3))}); }
        ref::Pic p = gen::compose(g, items, unsigned(s.u(3)), unsigned(s.u(3)));
        if (s.chance(1, 3)) { // grey levels around the script's threshold of 100
            file = "P6\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n";
            for (char x : p.px) file.append(3, char(x == 'x' ? 120 : 70));
            p = ref::decode_image(file, 100).pic;
        }
        else file = gen::encode(s, p);
        for (auto& b : ref::segment(p)) crops.push_back(ref::crop(p, b.x, b.y, b.w, b.h));
        shown += ref::show(p, 100) + ' ';
        c.mix(file);
    };
    Want want[3];
    std::vector<std::string> images, lists;
    unsigned glyphs = 0;
    for (unsigned a = 0; a < 2; ++a) {
        std::string const dir = base + "/resources/fonts/" + (a ? "cyrillic" : "latin");
        auto add = [&](ref::Pic const& p, std::string const& w, std::string const& f) { ++glyphs; want[a][p].insert({w, f, ~0u}); want[2][p].insert({w, f, ~0u}); };
        tree(dir + "/generated");
        tree(dir + "/mano");
        unsigned const letters = unsigned(s.range(1, 5));
        std::vector<std::string> abc;
        std::string text;
        for (unsigned i = 0; i < letters; ++i) { abc.push_back(gen::token(s, 3)); text += abc.back() + "\n"; }
        write_file(dir + "/letters", text);
        lists.push_back(dir + "/letters");
        c.mix(text);
        for (unsigned k = unsigned(s.range(1, 3)); k; --k) {
            std::string const font = fonts[s.u(8)];
            tree(dir + "/generated/" + font);
            std::string const name = dir + "/generated/" + font + "/" + std::to_string(k) + ".pnm";
            std::vector<ref::Pic> crops;
            std::string file;
            do { crops.clear(); picture(letters, crops, file); } while (crops.size() != letters);
            write_file(name, file);
            images.push_back(name);
            for (unsigned i = 0; i < letters; ++i) add(crops[i], abc[i], font);
        }
        for (unsigned k = unsigned(s.range(1, 2)); k; --k) {
            std::string const font = fonts[s.u(8)];
            tree(dir + "/mano/" + font);
            std::string const name = dir + "/mano/" + font + "/m" + std::to_string(k);
            std::vector<ref::Pic> crops;
            std::string file, t;
            picture(unsigned(s.range(0, 5)), crops, file);
            for (auto& p : crops) { std::string const w = gen::token(s, 3); t += w + (s.flip() ? "\n" : " "); add(p, w, font); }
            write_file(name + ".pbm", file);
            write_file(name + ".txt", t);
            images.push_back(name + ".pbm");
            lists.push_back(name + ".txt");
            c.mix(t);
        }
    }
    bool const wrong = s.chance(1, 4);
    if (wrong) {
        if (s.flip()) { auto const& p = s.pick(lists); write_file(p, read_file(p) + " one-more\n"); c.label("a word too many"); }
        else { auto const& p = s.pick(images); std::string t = read_file(p); write_file(p, s.flip() ? t.substr(0, 4) : "P7\n" + t); c.label("damaged image"); }
    }
    bool const old = wrong || s.flip();
    static char const* const sets[] = {"latin", "cyrillic", "latin-cyrillic"};
    if (old) for (auto* n : sets) {
        write_file(base + "/resources/glyphs/normalized-glyphs-" + n + ".txt", std::string("old glyphs ") + n);
        write_file(base + "/resources/datas/" + n + ".txt", std::string("old datas ") + n);
    }
    c.describe([&](auto& o) { o << (wrong ? "wrong input; " : "") << glyphs << " glyphs in " << images.size() << " images: " << shown; });
    c.nontrivial = wrong || want[2].size() > 1;

    // from the repository, from elsewhere, with relative paths
    std::string const bin = getenv("PBT_BIN");
    unsigned const how = unsigned(s.u(3));
    std::vector<std::string> args;
    for (auto* t : {"write_glyphs", "normalize_glyphs", "write_datas"}) args.push_back(how == 2 ? std::string("./") + t : bin + "/" + t);
    auto const r = run_program(base + "/learning", args, how == 0 ? base : how == 1 ? scratch_dir() : bin);
    if (wrong) {
        PBT_REQ(c, r.status != 0, "success although an input is wrong; " << shown);
        for (auto* n : sets) {
            PBT_REQ(c, read_file(base + "/resources/glyphs/normalized-glyphs-" + n + ".txt") == std::string("old glyphs ") + n, "failed, but replaced the glyph file of " << n);
            PBT_REQ(c, read_file(base + "/resources/datas/" + n + ".txt") == std::string("old datas ") + n, "failed, but replaced the data file of " << n);
        }
    }
    else {
        PBT_REQ(c, r.status == 0, "status " << r.status << ' ' << r.err.substr(0, 2000));
        for (unsigned k = 0; k < 3; ++k) {
            std::string const g = read_file(base + "/resources/glyphs/normalized-glyphs-" + sets[k] + ".txt");
            auto const p = ref::parse_glyphs(g);
            PBT_REQ(c, p.ok, "no glyph file for " << sets[k] << ": " << quote(g, 1000));
            Want got;
            std::vector<ref::Features> f;
            ref::Pic const* last = nullptr;
            for (auto& e : p.v) {
                PBT_REQ(c, !last || *last < e.pic, sets[k] << ": pictures not in order or repeated: " << ref::show(e.pic));
                last = &e.pic;
                got[e.pic].insert(e.labels.begin(), e.labels.end());
                f.push_back(ref::features(e.pic));
            }
            PBT_REQ(c, got == want[k], sets[k] << ": wrong glyphs or labels: " << quote(g, 2000) << " for " << shown);
            std::string const d = read_file(base + "/resources/datas/" + sets[k] + ".txt");
            PBT_REQ(c, d == ref::feature_table(f), sets[k] << ": wrong data file: " << quote(d, 1500));
        }
    }
    c.label(wrong ? "wrong input" : old ? "rebuilt" : "built");
    if (base.find(scratch_dir() + "/repo") == 0) remove_tree(base);
}

}
