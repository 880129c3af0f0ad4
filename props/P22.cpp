// A dictionary contains exactly its words and survives saving and loading.
#include "pp_dict.hpp"

namespace pbt {

PropertyInfo const property_info{"P22",
    "lists of 0..120 words over characters of one to four bytes (duplicates, prefixes, extensions, blank entries, any order): contents of the linked tree, the flat tree, the saved bytes and the reloaded dictionary, up to 80 membership probes of near misses, the same list reordered, and a damaged separator; "
    "non-trivial: at least two different words", no_setup};

void property(Source& s, Case& c) {
    auto const v = gen::word_list(s, 120, s.chance(2, 3));
    for (auto& w : v) c.mix(w);
    c.describe([&](auto& o) { o << pp::list(v); });
    std::set<std::string> set;
    for (auto& w : v) if (!w.empty()) set.insert(w);
    std::vector<std::string> const want(set.begin(), set.end());
    c.nontrivial = want.size() > 1;
    c.label(want.empty() ? "empty" : want.size() < v.size() ? "repeats or blanks" : "distinct");

    ppocr::spell::Dictionary const d(v);
    PBT_REQ(c, d.empty() == want.empty(), "emptiness is " << d.empty());
    auto got = pp::words(d);
    std::sort(got.begin(), got.end());
    PBT_REQ(c, got == want, "contains " << pp::list(got) << " instead of " << pp::list(want));
    std::ostringstream o; o << d;
    std::string const saved = o.str();
    std::vector<std::string> parsed;
    std::string why;
    bool const ok = pp::parse_saved(saved, parsed, why);
    PBT_REQ(c, ok, "saved form " << quote(saved) << ": " << why);
    PBT_REQ(c, parsed == want, "saved form holds " << pp::list(parsed) << " instead of " << pp::list(want));
    ppocr::spell::Dictionary back;
    { std::istringstream i(saved); i >> back; PBT_REQ(c, i.eof() && !i.bad(), "loading stopped before the end"); }
    { std::ostringstream q; q << back; PBT_REQ(c, q.str() == saved, "saving the loaded dictionary gives " << quote(q.str()) << " instead of " << quote(saved)); }

    // linked and flat trees
    std::vector<pp::Symbols> sym;
    for (auto& w : want) sym.push_back(pp::symbols(w));
    std::sort(sym.begin(), sym.end());
    ppocr::container::trie<std::uint32_t> const linked(sym.begin(), sym.end());
    { pp::Symbols p; std::vector<std::string> l; pp::words_below(linked, p, l); std::sort(l.begin(), l.end()); PBT_REQ(c, l == want, "linked tree contains " << pp::list(l)); }
    ppocr::container::flat_trie<std::uint32_t> const flat(linked);
    if (!want.empty()) { pp::Symbols p; std::vector<std::string> l; pp::words_below(flat.childrens(), p, l); std::sort(l.begin(), l.end()); PBT_REQ(c, l == want, "flat tree contains " << pp::list(l)); }
    ppocr::spell::Dictionary const from_linked(linked), from_flat(flat);
    for (auto* e : {&from_linked, &from_flat}) { std::ostringstream q; q << *e; PBT_REQ(c, q.str() == saved, "a dictionary made from a tree saves to " << quote(q.str())); }

    // membership
    for (unsigned k = unsigned(s.range(1, s.size_class() < 2 ? 20 : 80)); k; --k) {
        std::string p;
        switch (s.u(5)) {
            case 0: p = want.empty() ? "a" : s.pick(want); break;
            case 1: p = (want.empty() ? "" : s.pick(want)) + gen::character(s); break;
            case 2: { if (want.empty()) { p = "b"; break; } auto ch = gen::chars(s.pick(want)); ch.pop_back(); for (auto& x : ch) p += x; if (p.empty()) p = "c"; break; }
            case 3: { if (want.empty()) { p = "b"; break; } auto ch = gen::chars(s.pick(want)); s.pick_mut(ch) = gen::character(s); for (auto& x : ch) p += x; break; }
            default: p = gen::text_word(s, 4); break;
        }
        bool const in = set.count(p) != 0;
        PBT_REQ(c, pp::contains(linked, p) == in, "linked tree: membership of " << quote(p) << " should be " << in);
        if (!want.empty()) {
            PBT_REQ(c, pp::contains(flat.childrens(), p) == in, "flat tree: membership of " << quote(p) << " should be " << in);
            PBT_REQ(c, pp::contains(pp::Peek().flat(back).childrens(), p) == in, "loaded dictionary: membership of " << quote(p) << " should be " << in);
        }
    }
    // another order, with repeats
    auto u = v;
    for (unsigned k = unsigned(s.u(4)); k && !v.empty(); --k) u.push_back(s.pick(v));
    for (std::size_t i = u.size(); i > 1; --i) std::swap(u[i - 1], u[s.u(i)]);
    { std::ostringstream q; q << ppocr::spell::Dictionary(u); PBT_REQ(c, q.str() == saved, "the same words in another order save to " << quote(q.str()) << " instead of " << quote(saved)); }
    // a damaged separator
    if (!saved.empty()) {
        std::vector<std::size_t> seps;
        for (std::size_t i = 0; i < saved.size(); ++i) if (saved[i] == ' ' || saved[i] == '\n') seps.push_back(i);
        std::string bad = saved;
        std::size_t const at = s.pick(seps);
        static char const repl[] = {'x', ';', '\t', ',', '\n', ' '};
        char r = repl[s.u(6)];
        if (r == bad[at]) r = '_';
        bad[at] = r;
        bool refused = false;
        ppocr::spell::Dictionary x;
        std::istringstream i(bad);
        try { i >> x; } catch (std::exception const&) { refused = true; }
        PBT_REQ(c, refused, "separator at " << at << " replaced by " << quote(std::string(1, r)) << " is accepted: " << quote(bad));
    }
}

}
