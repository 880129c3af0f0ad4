// Font filtering keeps the dominant font's candidate and nothing else changes.
#include "pp_text.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"

namespace pbt {

PropertyInfo const property_info{"P21",
    "0..24 (now and then up to 70000) positions of 0..6 candidates over 1..6 words and 1..5 fonts (numbers 0, small and large) against the reference filter; non-trivial: the reference reduces a list", no_setup};

void property(Source& s, Case& c) {
    static std::vector<std::string> const pool{"a", "b", "c", "d"};
    pp::WordTable const t(pp::distinct_words(s, pool, 1, 6));
    static unsigned const numbers[] = {0, 1, 2, 7, 4294967294u};
    unsigned const nf = unsigned(s.range(1, 5));
    unsigned const n = s.chance(1, 1000) ? gen::huge(s, s.chance(1, 60) ? 70000 : 1025) : unsigned(s.small(0, s.size_class() < 2 ? 6 : 24));
    pp::Lists l(t);
    unsigned const single = unsigned(s.range(1, 9));
    bool const dominant = s.chance(1, 3);
    for (unsigned i = 0; i < n; ++i) {
        l.position();
        unsigned const k = s.chance(1, 8) ? 0 : s.chance(single, 10) ? 1 : unsigned(s.range(2, 6));
        for (unsigned j = 0; j < k; ++j) l.candidate(s.u(t.words.size()), numbers[dominant && s.chance(9, 10) ? 0 : s.u(nf)]);
    }
    l.done();
    c.mix(l.describe());
    c.describe([&](auto& o) { o << l.describe(); });
    auto want = l.model;
    unsigned const wf = ref::filter_fonts(want);
    c.nontrivial = !pp::same(want, l.model);
    unsigned const gf = ppocr::ocr2::filter_by_font(l.ambiguous);
    PBT_REQ(c, gf == wf, "font " << gf << " is returned instead of " << wf);
    PBT_REQ(c, l.ambiguous.size() == n, "the number of positions changed");
    auto const got = l.now();
    PBT_REQ(c, pp::same(got, want), "got " << pp::Lists::str(got) << " expected " << pp::Lists::str(want));
    c.label(wf == ref::no_font ? "no font" : c.nontrivial ? "reduced" : "unchanged");
}

}
