// Learning pairs each segmented glyph with its word, in order.
#include "gen_line.hpp"

namespace pbt {

PropertyInfo const property_info{"P13",
    "1..3 (now and then up to 24) (line picture, word list, font) triples; pictures composed of glyph pictures (rarely more than 65536 columns apart) or random, encoded as P1/P3/P4/P6 (P6 with grey levels and a luminance option), word lists of the right length or one word short or long; "
    "non-trivial: at least two boxes or a word list of the wrong length", no_setup};

void property(Source& s, Case& c) {
    bool const many = s.chance(1, 60);
    unsigned const n = many ? unsigned(s.range(4, 24)) : s.size_class() < 2 ? 1 : unsigned(s.range(1, 3));
    std::vector<std::string> args, images;
    unsigned luminance = 128;
    bool const option = s.chance(1, 3);
    if (option) { luminance = unsigned(s.range(1, 255)); args = {"-l", std::to_string(luminance)}; }
    bool wrong = false;
    std::vector<ref::Glyph> want;
    std::string shown;
    std::size_t boxes_total = 0;
    for (unsigned k = 0; k < n; ++k) {
        ref::Pic p;
        if (s.chance(1, 4)) p = gen::any_pic(s, 40, 30);
        else {
            static unsigned const caps[4] = {2, 4, 8, 12};
            std::vector<ref::Pic> g;
            std::vector<gen::LineItem> items;
            bool const longer = !many && s.chance(1, 120);
            unsigned const m = longer ? gen::huge(s, 300) : unsigned(s.range(0, caps[s.size_class()]));
            for (unsigned i = 0; i < m; ++i) { g.push_back(longer && i > 4 ? g[s.u(5)] : s.chance(1, 100) ? gen::tighten(gen::bulk_pic(s, 90, 70)) : gen::connected(s, 16, 16)); items.push_back({i, unsigned(s.small(i ? 1 : 0, 8)), unsigned(s.small(0, 5))}); }
            if (m > 1 && s.chance(1, 1500)) items[1 + s.u(m - 1)].gap = 65536 + unsigned(s.irange(-24, 24)); // past the range of 16 bits
            p = gen::compose(g, items, unsigned(s.small(0, 4)), unsigned(s.small(0, 3)));
        }
        std::string file;
        if (option && s.chance(2, 3)) { // grey levels around the threshold
            file = "P6\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n";
            unsigned char pal[4];
            for (auto& v : pal) v = static_cast<unsigned char>(s.flip() ? s.u(256) : std::min(255, std::max(0, int(luminance) + s.irange(-4, 4))));
            std::uint32_t r = 0;
            for (std::size_t i = 0; i < p.px.size(); ++i) {
                if (i % 16 == 0) r = s.bits32();
                unsigned char const v = p.px[i] == 'x' ? pal[r >> (i % 16 * 2) & 1] : pal[2 + (r >> (i % 16 * 2) & 1)];
                file.append(3, char(v));
            }
            p = ref::decode_image(file, luminance).pic;
        }
        else file = gen::encode(s, p);
        auto const boxes = ref::segment(p);
        boxes_total += boxes.size();
        std::string const font = gen::font(s);
        std::string text;
        std::size_t count = boxes.size();
        if (s.chance(1, 8)) { if (count && s.flip()) count -= s.range(1, std::min<std::size_t>(count, 2)); else count += s.range(1, 2); }
        for (std::size_t i = 0; i < count; ++i) {
            std::string const w = gen::word(s);
            text += w;
            static char const* const sep[] = {"\n", " ", "\n\n", "\t", " \n"};
            if (i + 1 < count || s.chance(2, 3)) text += sep[s.weighted({4, 4, 1, 1, 1})];
            if (i < boxes.size() && !wrong) want.push_back({ref::crop(p, boxes[i].x, boxes[i].y, boxes[i].w, boxes[i].h), {{w, font, ~0u}}});
        }
        if (count != boxes.size()) wrong = true;
        std::string const base = scratch_dir() + "/" + std::to_string(k);
        write_file(base + ".pnm", file);
        write_file(base + ".txt", text);
        args.insert(args.end(), {base + ".pnm", base + ".txt", font});
        images.push_back(base + ".pnm");
        shown += ref::show(p, 120) + " words " + quote(text, 100) + " font " + font + "; ";
        c.mix(file); c.mix(text); c.mix(font);
    }
    c.describe([&](auto& o) { o << "luminance " << luminance << ": " << shown; });
    c.nontrivial = boxes_total > 1 || wrong;
    c.label(wrong ? "wrong number of words" : boxes_total == 0 ? "blank" : "paired");

    auto const r = run_tool("write_glyphs", args);
    if (wrong) { PBT_REQ(c, r.status != 0, "the tool succeeded although the numbers of words and glyphs differ; " << shown); }
    else {
        PBT_REQ(c, r.status == 0, "status " << r.status << ": " << r.err.substr(0, 1500) << "; " << shown);
        std::string const w = ref::glyph_file(want);
        PBT_REQ(c, r.out == w, "printed " << quote(r.out, 1500) << " instead of " << quote(w, 1500) << "; " << shown);
        // the viewer shows the same crops in the same order
        std::vector<std::string> va;
        if (option) va = {"-l", std::to_string(luminance)};
        va.insert(va.end(), images.begin(), images.end());
        auto const q = run_tool("show_glyphs", va);
        std::string e;
        for (auto& g : want) e += ref::printed(g.pic) + "\n";
        PBT_REQ(c, q.status == 0 && q.out == e, "viewer: status " << q.status << ", printed " << quote(q.out, 1000) << " instead of " << quote(e, 1000));
    }
}

}
