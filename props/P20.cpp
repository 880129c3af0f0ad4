// Line-position filtering removes exactly the candidates that contradict the line.
#include "pp_text.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"

namespace pbt {

PropertyInfo const property_info{"P20",
    "lines of 0..24 (now and then up to 70000) boxes around a base line (and outliers, now and then 140000 rows away), shifted by 0..4e9 rows, candidate lists of 0..8 labels (grouped, repeated and interleaved words, with and without line settings 0..7 for mean and base line) against the reference filter; "
    "non-trivial: the reference removes a candidate", no_setup};

void property(Source& s, Case& c) {
    static std::vector<std::string> const pool{"a", "b", "c", "d", "p", "q", "-", "_", "'", ",", ".", "ab", "rn"};
    pp::WordTable const t(pp::distinct_words(s, pool, 1, 10));
    ref::LineInfo info;
    std::string text;
    for (auto& w : t.words) if (s.chance(4, 5)) {
        static unsigned const common[] = {2, 1, 4, 3, 6};
        ref::Lines l;
        l.ascent = unsigned(s.u(8)); l.cap = unsigned(s.u(8));
        l.mean = s.chance(1, 8) ? unsigned(s.u(8)) : common[s.weighted({4, 2, 1, 1, 1})];
        l.base = s.chance(1, 8) ? unsigned(s.u(8)) : common[s.weighted({4, 1, 2, 1, 1})];
        if (w.size() <= 8) info[w] = l;
        text += w + ' ' + std::to_string(l.ascent) + ' ' + std::to_string(l.cap) + ' ' + std::to_string(l.mean) + ' ' + std::to_string(l.base) + '\n';
    }
    ppocr::ocr2::WWordsLines wl;
    { std::istringstream i(text); i >> wl; }
    ppocr::ocr2::WordsInfos const wi(t.glyphs, wl);

    static unsigned const offs[] = {0, 1, 2, 5, 100, 65000, 4000000000u};
    unsigned const off = offs[s.weighted({4, 2, 1, 1, 1, 1, 1})];
    unsigned const n = s.chance(1, 1000) ? gen::huge(s, s.chance(1, 100) ? 70000 : 513) : unsigned(s.small(0, s.size_class() < 2 ? 6 : 24));
    std::vector<ref::BoxR> boxes;
    std::vector<ppocr::Box> pboxes;
    pp::Lists l(t);
    unsigned const base = unsigned(s.range(0, 24)), mean = unsigned(s.range(0, base));
    for (unsigned i = 0; i < n; ++i) {
        unsigned top, bottom;
        if (s.chance(1, 8)) { top = unsigned(s.u(40)); bottom = top + unsigned(s.small(0, 300)); if (s.chance(1, 300)) { unsigned const far = unsigned(s.range(65500, 140000)); bottom += far; if (s.flip()) top += far; } }
        else {
            bottom = unsigned(std::max(0, int(base) + (s.flip() ? 0 : s.irange(-3, 4))));
            top = unsigned(std::max(0, int(mean) + (s.flip() ? 0 : s.irange(-3, 3))));
            top = std::min(top, bottom);
        }
        boxes.push_back({i * 10, off + top, 5, bottom - top + 1});
        pboxes.push_back(ppocr::Box({i * 10, off + top}, {5, bottom - top + 1}));
        l.position();
        unsigned const m = unsigned(s.weighted({1, 4, 4, 4, 2, 1}));
        unsigned const k = m == 5 ? 8 : m;
        std::size_t last = s.u(t.words.size());
        for (unsigned j = 0; j < k; ++j) {
            if (!s.chance(1, 3)) last = s.u(t.words.size());
            l.candidate(last, unsigned(s.u(3)));
        }
    }
    l.done();
    c.mix(text); c.mix(l.describe());
    for (auto& b : boxes) { c.mix(b.y); c.mix(b.h); }
    c.describe([&](auto& o) { o << "info " << quote(text) << " boxes"; for (auto& b : boxes) o << ' ' << b; o << " lists " << l.describe(); });
    auto want = l.model;
    ref::filter_lines(want, info, boxes);
    c.nontrivial = !pp::same(want, l.model);
    ppocr::ocr2::filter_by_lines(l.ambiguous, wi, pboxes);
    PBT_REQ(c, l.ambiguous.size() == n, "the number of positions changed");
    auto const got = l.now();
    PBT_REQ(c, pp::same(got, want), "got " << pp::Lists::str(got) << " expected " << pp::Lists::str(want));
    c.label(c.nontrivial ? "removes" : "unchanged");
    if (n && boxes[0].y + boxes[0].h >= 24) c.label("first box low");
}

}
