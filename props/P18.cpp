// The recogniser's glyph table returns exactly the words and fonts of the file.
#include "pp_glyphs.hpp"

namespace pbt {

PropertyInfo const property_info{"P18",
    "glyph files of 1..30 glyphs (up to 200 labels), now and then up to 70000 glyphs, words of 9000 bytes or pictures of 90000 pixels, whose words have 1..40 bytes of any non-blank value with prefixes and extensions of each other; every label's bytes and terminator, the numbering, and up to 60 lookups of present, shortened, extended, changed and empty strings held in buffers of exactly their size; "
    "non-trivial: at least two different words", no_setup};

void property(Source& s, Case& c) {
    std::vector<ref::Glyph> g;
    unsigned const n = unsigned(s.range(1, s.size_class() < 2 ? 6 : 30));
    bool const many = s.chance(1, 500);
    std::vector<std::string> pool;
    for (unsigned i = unsigned(s.range(1, 12)); i; --i) {
        if (!pool.empty() && s.flip()) { // relatives
            std::string w = s.pick(pool);
            if (s.flip()) w += gen::word(s); else w = w.substr(0, s.range(1, w.size()));
            pool.push_back(w);
        }
        else pool.push_back(gen::word(s));
    }
    if (many) {
        g = gen::many_glyphs(s, gen::huge(s, s.chance(1, 10) ? 70000 : 5000), 3);
        pool.clear();
        for (auto& x : g) pool.push_back(x.labels[0].word);
    }
    else for (unsigned i = 0; i < n; ++i) {
        ref::Glyph x{s.chance(1, 1000) ? gen::big_pic(s) : ref::Pic{1, 1, "x"}, {}};
        for (unsigned k = unsigned(s.small(1, 8)); k; --k) x.labels.push_back({s.pick(pool), gen::font(s), 7});
        g.push_back(x);
    }
    c.mix(ref::glyph_file(g));
    c.describe([&](auto& o) { o << gen::describe(g); });
    std::set<std::string> words;
    for (auto& x : g) for (auto& l : x.labels) words.insert(l.word);
    c.nontrivial = words.size() > 1;

    ppocr::ocr2::Glyphs t;
    { std::istringstream i(ref::glyph_file(g)); i >> t; }
    pp::same_table(c, t, g, "table");
    std::map<std::string, unsigned> number;
    for (std::size_t i = 0; i < g.size(); ++i) for (std::size_t k = 0; k < g[i].labels.size(); ++k) {
        auto const& w = t.get_word(t[i][k]);
        PBT_REQ(c, w.data()[w.size()] == '\0', "word " << quote(g[i].labels[k].word) << " is not terminated");
        PBT_REQ(c, std::string(w.begin(), w.end()) == g[i].labels[k].word && w.front() == g[i].labels[k].word[0], "word " << quote(g[i].labels[k].word) << " is not the range of its characters");
        std::ostringstream o; o << w;
        PBT_REQ(c, o.str() == g[i].labels[k].word, "word " << quote(g[i].labels[k].word) << " prints as " << quote(o.str()));
        number[g[i].labels[k].word] = t[i][k].word;
    }
    unsigned hits = 0;
    for (unsigned q = unsigned(s.range(1, 60)); q; --q) {
        std::string p;
        switch (s.u(6)) {
            case 0: p = s.pick(pool); break;
            case 1: p = s.pick(pool); p.resize(s.u(p.size() + 1)); break;
            case 2: p = s.pick(pool) + gen::word(s).substr(0, s.range(1, 3)); break;
            case 3: p = s.pick(pool); p[s.u(p.size())] ^= char(1u << s.u(8)); break;
            case 4: p = gen::word(s); break;
            default: p = s.pick(pool); p += s.pick(pool); break;
        }
        std::vector<char> exact(p.begin(), p.end()); // nothing readable behind it
        auto const it = number.find(p);
        unsigned const got = t.word_index_of(std::string_view(exact.data(), exact.size()));
        unsigned const want = it == number.end() ? ppocr::ocr2::Glyphs::no_index : it->second;
        hits += it != number.end();
        PBT_REQ(c, got == want, "looking up " << quote(p) << " gives " << got << " instead of " << want);
    }
    c.label(hits ? "some lookups hit" : "no lookup hits");
}

}
