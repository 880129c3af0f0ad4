// The extraction tool prints the text, counts and rate the line determines.
#include "pp_recog.hpp"
#include "pp_text.hpp"
#include "gen_line.hpp"
#include "gen_dict.hpp"
#include "ppocr/spell/dictionary.hpp"

namespace pbt {

PropertyInfo const property_info{"P27",
    "learned sets of 1..40 glyphs, lines of 0..14 (now and then up to 300) pictures (learned, slightly changed, unknown, repeated at different heights) with gaps of 1..9 (rarely about 65536) columns and a margin of 0..9, with and without line-position information and dictionaries, in all image kinds; the printed text, counts and rate against segmentation, exhaustive recognition and the reference filters; or tables of different lengths; "
    "non-trivial: at least two boxes or tables of different lengths", no_setup};

void property(Source& s, Case& c) {
    // glyphs the segmentation keeps in one piece
    static unsigned const caps[4] = {3, 6, 14, 30};
    static char const* const pool[] = {"a", "b", "c", "ab", "-", "_", "\xc3\xa9", "abc", ".", ",", "'", "m", "p"};
    std::vector<ref::Glyph> g;
    std::vector<ref::Pic> bases;
    for (unsigned k = unsigned(s.range(1, 4)); k; --k) bases.push_back(gen::connected(s, 14, 14));
    for (unsigned n = unsigned(s.range(1, caps[s.size_class()])), i = 0; i < n; ++i) {
        ref::Glyph x;
        switch (s.u(4)) {
            case 0: x.pic = gen::connected(s, 14, 14); break;
            case 1: x.pic = gen::tighten(gen::mutate(s, s.pick(bases), 2)); break;
            default: x.pic = s.pick(bases); break;
        }
        if (i && s.chance(1, 4)) x.labels = s.pick(g).labels;
        else for (unsigned k = unsigned(s.small(1, 3)); k; --k) x.labels.push_back({pool[s.u(13)], s.flip() ? "f" : "g", 0});
        g.push_back(x);
    }
    std::vector<ref::Features> f;
    for (auto& x : g) f.push_back(ref::features(x.pic));
    std::string const dir = scratch_dir() + "/";

    static unsigned const items_cap[4] = {3, 5, 9, 14};
    std::vector<ref::Pic> pics;
    std::vector<gen::LineItem> items;
    bool const longer = s.chance(1, 60);
    unsigned const m = longer ? gen::huge(s, 300) : unsigned(s.range(0, items_cap[s.size_class()]));
    unsigned const low = unsigned(s.range(0, 8));
    for (unsigned i = 0; i < m; ++i) {
        ref::Pic p;
        switch (longer && i > 5 ? 2 : s.weighted({4, 2, 3, 1})) {
            case 0: p = s.pick(g).pic; break;
            case 1: p = gen::tighten(gen::mutate(s, s.pick(g).pic, 2)); break;
            case 2: p = pics.empty() ? s.pick(g).pic : s.pick(pics); break;
            default: p = gen::connected(s, 12, 12); break;
        }
        pics.push_back(p);
        static unsigned const gaps[] = {1, 2, 3, 4, 5, 6, 9};
        unsigned const gap = i ? gaps[s.u(7)] : unsigned(s.u(8));
        // mostly sitting on a common line
        unsigned const line = 16 + low;
        unsigned dy = s.chance(2, 3) && p.h <= line ? line - p.h : unsigned(s.range(0, 10));
        items.push_back({i, gap, dy});
    }
    if (m > 1 && s.chance(1, 1000)) items[1 + s.u(m - 1)].gap = 65536 + unsigned(s.irange(-1, 6)); // past the range of 16 bits
    ref::Pic const pic = gen::compose(pics, items, unsigned(s.small(0, 7)), unsigned(s.small(0, 3)));
    std::string const image = gen::encode(s, pic);

    bool const with_info = s.flip(), with_dict = s.flip();
    std::set<std::string> words;
    for (auto& x : g) for (auto& l : x.labels) words.insert(l.word);
    ref::LineInfo info;
    std::string info_text;
    if (with_info) for (auto& w : words) if (s.chance(4, 5)) {
        static unsigned const v[] = {2, 1, 4, 3, 6, 0};
        ref::Lines l{0, 0, v[s.weighted({4, 2, 1, 1, 1, 1})], v[s.weighted({4, 2, 2, 1, 1, 1})]};
        info[w] = l;
        info_text += w + " 0 0 " + std::to_string(l.mean) + ' ' + std::to_string(l.base) + '\n';
    }
    // candidates of each box
    auto const boxes = ref::segment(pic);
    pp::World w(g, f, true);
    std::vector<ref::Cands> v;
    std::map<ref::Pic, std::vector<ref::Cands>> seen;
    for (auto& b : boxes) {
        ref::Pic const q = ref::crop(pic, b.x, b.y, b.w, b.h);
        auto const got = w.recognise(q);
        auto const e = ref::check_recognition(ref::recognise(f, w.words, ref::features(q)), got);
        if (!e.empty()) pbt::fail("recognition of " + ref::show(q) + ": " + e);
        ref::Cands l;
        for (auto i : got) for (std::size_t k = 0; k < g[i].labels.size(); ++k) l.push_back({g[i].labels[k].word, w.glyphs[i][k].font, 0});
        v.push_back(l);
    }
    std::vector<std::string> dict;
    if (with_dict) for (unsigned k = unsigned(s.small(0, 10)); k; --k) {
        std::string x;
        if (!v.empty() && s.chance(3, 4)) { std::size_t const a = s.u(v.size()), e = std::min(v.size(), a + std::size_t(s.small(1, 6))); for (std::size_t i = a; i < e && !v[i].empty(); ++i) x += s.pick(v[i]).word; }
        else x = s.pick(std::vector<std::string>(words.begin(), words.end()));
        if (!x.empty()) dict.push_back(x);
    }
    c.mix(ref::glyph_file(g)); c.mix(image); c.mix(info_text); for (auto& x : dict) c.mix(x);
    c.describe([&](auto& o) { o << gen::describe(g) << " line " << ref::show(pic, 3000) << " info " << (with_info ? quote(info_text) : "none") << " dictionary"; if (with_dict) for (auto& x : dict) o << ' ' << quote(x); else o << " none"; });

    write_file(dir + "glyphs", ref::glyph_file(g));
    write_file(dir + "image", image);
    std::vector<std::string> args{dir + "glyphs", dir + "datas", dir + "image"};
    if (with_info || with_dict) { write_file(dir + "info", info_text); args.push_back(dir + "info"); }
    if (with_dict) { std::ostringstream o; o << ppocr::spell::Dictionary(dict); write_file(dir + "dict", o.str()); args.push_back(dir + "dict"); }

    if (s.chance(1, 16)) { // tables of different lengths
        auto f2 = f;
        if (s.flip() && f2.size() > 1) f2.pop_back(); else f2.push_back(f2[0]);
        write_file(dir + "datas", ref::feature_table(f2));
        auto const r = run_tool("ocr2_extract_text", args);
        PBT_REQ(c, r.status != 0 && r.out.find("result:") == std::string::npos, "tables of different lengths are accepted; printed " << quote(r.out));
        c.nontrivial = true;
        c.label("different lengths");
        return;
    }
    write_file(dir + "datas", ref::feature_table(f));
    auto const r = run_tool("ocr2_extract_text", args);
    PBT_REQ(c, r.status == 0, "status " << r.status << " " << r.err.substr(0, 2000));

    if (with_info) ref::filter_lines(v, info, boxes);
    ref::filter_fonts(v);
    std::set<std::size_t> spaces;
    unsigned x = 0;
    for (std::size_t i = 0; i < boxes.size(); ++i) { if (boxes[i].x > x + 4) spaces.insert(i); x = boxes[i].x + boxes[i].w; }
    auto const t = ref::assemble(v, spaces, std::set<std::string>(dict.begin(), dict.end()));
    std::ostringstream o;
    o << " ## result: " << t.text << "\nunrecognized_count: " << t.unknown << "\ncount: " << v.size() << "\nunrecognized_rate: " << (v.empty() ? 0. : double(t.unknown * 100) / double(v.size())) << "\n";
    std::size_t const at = r.out.rfind(" ## result: ");
    PBT_REQ(c, at != std::string::npos, "no result in " << quote(r.out));
    PBT_REQ(c, r.out.substr(at) == o.str(), "printed " << quote(r.out.substr(at)) << " instead of " << quote(o.str()));
    c.nontrivial = boxes.size() > 1;
    if (with_info) c.label("line information");
    if (with_dict) c.label("dictionary");
    if (t.unknown) c.label("unknown glyphs");
    if (boxes.empty()) c.label("empty line");
}

}
