// Glyph files survive being written and read back, for both readers.
#include "pp_glyphs.hpp"

namespace pbt {

PropertyInfo const property_info{"P10",
    "two random lists of learned glyphs (0..30 glyphs, 1..4 and now and then 70000 glyphs or thousands of labels with words of 1..40 and now and then thousands of bytes, any non-blank ones, repeated labels and pictures) written, concatenated and read back by both readers; "
    "non-trivial: at least one glyph", no_setup};

void property(Source& s, Case& c) {
    auto a = gen::glyphs(s, 30), b = gen::glyphs(s, 8);
    if (s.chance(1, 16000)) a = gen::many_glyphs(s, unsigned(s.range(65530, 70000)), 2);
    if (!a.empty() && s.chance(1, 25)) { // many labels, long words
        auto& l = s.pick_mut(a).labels;
        if (s.flip()) { gen::Bulk bulk(s); for (std::size_t n = gen::huge(s, s.chance(1, 60) ? 70000 : 5000); n; --n) l.push_back({"w" + std::to_string(bulk.u(3 * n)), "f" + std::to_string(bulk.u(9)), unsigned(bulk.next())}); }
        else if (!l.empty()) { auto& x = s.pick_mut(l); (s.flip() ? x.word : x.font) += std::string(gen::huge(s, 5000), 'w'); }
    }
    c.describe([&](auto& o) { o << gen::describe(a) << " then " << gen::describe(b); });
    c.mix(ref::glyph_file(a)); c.mix(ref::glyph_file(b));
    c.nontrivial = !a.empty() || !b.empty();
    c.label(a.empty() ? "empty" : a.size() < 4 ? "1-3 glyphs" : "4+ glyphs");

    auto const la = pp::learned(a), lb = pp::learned(b);
    std::ostringstream oa, ob;
    oa << la; ob << lb;
    PBT_REQ(c, oa.str() == ref::glyph_file(a), "glyph file is " << quote(oa.str()) << " instead of " << quote(ref::glyph_file(a)));
    ppocr::loader2::Glyphs r;
    {
        std::istringstream i(oa.str());
        i >> r;
        PBT_REQ(c, i.eof(), "reading stopped before the end of the file");
        pp::same_glyphs(c, pp::plain(r), a, "read back");
        PBT_REQ(c, r == la, "the list read back does not compare equal");
    }
    auto both = a;
    both.insert(both.end(), b.begin(), b.end());
    {
        std::istringstream i(ob.str());
        i >> r;
        pp::same_glyphs(c, pp::plain(r), both, "reading onto a list");
    }
    {
        std::istringstream i(oa.str() + ob.str());
        ppocr::loader2::Glyphs q;
        i >> q;
        pp::same_glyphs(c, pp::plain(q), both, "concatenated files");
        std::ostringstream o; o << q;
        PBT_REQ(c, o.str() == oa.str() + ob.str(), "writing the concatenation again gives another file");
    }
    {
        std::istringstream i(oa.str() + ob.str());
        ppocr::ocr2::Glyphs t;
        i >> t;
        PBT_REQ(c, i.eof(), "the recogniser's reader stopped before the end of the file");
        pp::same_table(c, t, both, "recogniser's reader");
    }
    if (!a.empty()) { // single glyphs
        std::size_t const k = s.u(a.size());
        std::ostringstream o; o << la[k];
        std::istringstream i(o.str());
        ppocr::loader2::Glyph g;
        PBT_REQ(c, bool(i >> g), "one glyph does not read back");
        ppocr::loader2::Glyphs l; l.push_back(std::move(g));
        pp::same_glyphs(c, pp::plain(l), {a[k]}, "one glyph");
    }
}

}
