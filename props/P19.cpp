// Line-position information is loaded and found for exactly the listed words.
#include "pp_text.hpp"

namespace pbt {

PropertyInfo const property_info{"P19",
    "line-position files of 0..40 (now and then up to 70000) entries (words of 1..14 bytes, around the limit of 8, in any order, prefixes of each other, settings 0..7 each, several blank styles) against glyph tables of 1..30 (now and then up to 70000) words, some listed and some not; "
    "non-trivial: at least one listed word is in the table", no_setup};

void property(Source& s, Case& c) {
    std::vector<std::string> pool;
    bool const many = s.chance(1, 1500);
    if (many) { unsigned const n = gen::huge(s, s.chance(1, 10) ? 70000 : 1025); gen::Bulk b(s); for (unsigned i = 0; i < n; ++i) pool.push_back((b.u(2) ? "w" : "longer-") + std::to_string(b.u(n))); }
    else for (unsigned i = unsigned(s.range(1, 14)); i; --i) {
        std::string w;
        switch (s.u(4)) {
            case 0: w = gen::token(s, 4); break;
            case 1: { unsigned n = unsigned(s.range(6, 10)); for (unsigned k = 0; k < n; ++k) w += "ab"[s.u(2)]; break; }
            case 2: w = pool.empty() ? "a" : s.pick(pool).substr(0, s.range(1, 8)); break;
            default: w = (pool.empty() ? "b" : s.pick(pool)) + gen::token(s, 2); break;
        }
        if (w.size() > 14) w.resize(14);
        pool.push_back(w);
    }
    struct E { std::string w; unsigned v[4]; };
    std::vector<E> file;
    std::string text;
    std::set<std::string> used;
    for (unsigned i = many ? unsigned(s.range(1, std::min<unsigned>(s.chance(1, 3) ? 70000 : 2000, 2 * unsigned(pool.size())))) : unsigned(s.small(0, 40)); i; --i) {
        E e{s.pick(pool), {}};
        if (!used.insert(e.w).second) continue;
        for (auto& v : e.v) v = unsigned(s.u(8));
        file.push_back(e);
        static char const* const sep[] = {" ", "\t", "  "};
        text += e.w;
        for (auto v : e.v) { text += sep[s.weighted({6, 1, 1})]; text += std::to_string(v); }
        text += s.chance(1, 8) ? "\n\n" : "\n";
    }
    if (s.flip() && !text.empty()) while (text.back() == '\n') text.pop_back();
    std::vector<std::string> table;
    if (many) { // each listed word is looked for in the table from its start: together they stay small enough
        std::size_t const room = 1 + 200000000 / (file.size() + 1);
        std::set<std::string> in;
        std::size_t at = pool.size() > room ? s.u(pool.size() - room) : 0;
        for (; at < pool.size() && in.size() < room; ++at) if (in.insert(pool[at]).second) table.push_back(pool[at]);
    }
    else for (auto& w : pool) if (s.chance(2, 3) && std::find(table.begin(), table.end(), w) == table.end()) table.push_back(w);
    if (table.empty()) table.push_back("z");
    c.mix(text); for (auto& w : table) c.mix(w);
    c.describe([&](auto& o) { o << "file " << quote(text) << " table"; for (auto& w : table) o << ' ' << quote(w); });

    ppocr::ocr2::WWordsLines lines;
    { std::istringstream i(text); i >> lines; PBT_REQ(c, i.eof(), "reading stopped before the end"); }
    std::vector<E> want;
    for (auto& e : file) if (e.w.size() <= 8) want.push_back(e);
    PBT_REQ(c, lines.size() == want.size(), lines.size() << " entries instead of " << want.size());
    std::map<std::string, E> info;
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto const& l = lines[i];
        PBT_REQ(c, l.sv() == want[i].w, "entry " << i << " is for " << quote(std::string(l.sv())) << " instead of " << quote(want[i].w));
        PBT_REQ(c, l.wlines.ascentline == want[i].v[0] && l.wlines.capline == want[i].v[1] && l.wlines.meanline == want[i].v[2] && l.wlines.baseline == want[i].v[3],
            "settings of entry " << i << " (" << quote(want[i].w) << ") are " << l.wlines.ascentline << ' ' << l.wlines.capline << ' ' << l.wlines.meanline << ' ' << l.wlines.baseline);
        info.emplace(want[i].w, want[i]);
    }
    pp::WordTable const t(table);
    ppocr::ocr2::WordsInfos const wi(t.glyphs, lines);
    unsigned top = 0;
    for (std::size_t k = 0; k < table.size(); ++k) {
        auto const* p = wi.get(t.number(k));
        top = std::max(top, t.number(k));
        auto const it = info.find(table[k]);
        if (it == info.end()) { PBT_REQ(c, !p, "word " << quote(table[k]) << " is not listed but has an entry"); continue; }
        c.nontrivial = true;
        PBT_REQ(c, p, "word " << quote(table[k]) << " is listed but has no entry");
        auto const& v = it->second.v;
        PBT_REQ(c, p->word == t.number(k) && p->lines.ascentline == v[0] && p->lines.capline == v[1] && p->lines.meanline == v[2] && p->lines.baseline == v[3],
            "word " << quote(table[k]) << " has the entry of another word");
    }
    PBT_REQ(c, !wi.get(top + 1) && !wi.get(~0u), "a number of no word has an entry");
    c.label(want.size() < file.size() ? "some words too long" : "all words kept");
}

}
