// Dictionary search picks the first candidate combination that spells a word.
#include "pp_dict.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"

namespace pbt {

PropertyInfo const property_info{"P23",
    "dictionaries of 0..120 words and sequences of 0..8 (now and then 600) positions with 0..5 (now and then 40) candidate strings of 1..3 characters (one to four bytes each), made by cutting a dictionary word into pieces and adding distractors, and text already in the output (0..8 characters, now and then thousands); against exhaustive backtracking; "
    "non-trivial: a combination spells a word or shares at least one leading character with one", no_setup};

void property(Source& s, Case& c) {
    auto const list = gen::word_list(s, 120, false);
    std::set<std::string> const dict(list.begin(), list.end());
    std::vector<std::vector<std::string>> pos;
    auto distract = [&](std::vector<std::string>& l) {
        std::string w;
        if (!list.empty() && s.flip()) { auto ch = gen::chars(s.pick(list)); std::size_t const b = s.u(ch.size()); for (std::size_t i = b, e = b + s.small(1, 3); i < e && i < ch.size(); ++i) w += ch[i]; }
        else w = gen::text_word(s, 3);
        l.insert(l.begin() + long(s.u(l.size() + 1)), w);
    };
    if (!list.empty() && s.chance(5, 6)) {
        auto ch = gen::chars(s.pick(list));
        if (s.chance(1, 6)) ch.push_back(gen::character(s));
        if (s.chance(1, 6) && ch.size() > 1) ch.pop_back();
        for (std::size_t i = 0; i < ch.size(); ) {
            std::size_t const n = std::min<std::size_t>(ch.size() - i, s.chance(1, 4) ? s.range(2, 3) : 1);
            std::string w;
            for (std::size_t k = 0; k < n; ++k) w += ch[i + k];
            i += n;
            pos.push_back({w});
        }
        std::size_t at = 0;
        for (auto& l : pos) if (++at <= 8 || s.chance(1, 16)) for (unsigned k = unsigned(s.small(0, 4)); k; --k) distract(l);
    }
    else for (unsigned n = unsigned(s.small(0, 6)); n; --n) {
        pos.emplace_back();
        for (unsigned k = unsigned(s.range(1, 4)); k; --k) distract(pos.back());
    }
    if (pos.size() > 8) { // a long word: few choices
        bool const whole = s.chance(9, 10);
        if (!whole) pos.resize(8);
        else for (std::size_t k = 8; k < pos.size(); ++k) if (pos[k].size() > 2) pos[k].resize(2);
    }
    if (!pos.empty() && s.chance(1, 40)) { auto& l = s.pick_mut(pos); for (unsigned k = unsigned(s.range(5, 40)); k; --k) distract(l); c.label("many candidates"); }
    if (!pos.empty() && s.chance(1, 12)) s.pick_mut(pos).clear();
    std::string const before = s.flip() ? "" : s.flip() ? "x" : s.chance(1, 8) ? std::string(gen::huge(s, 5000), '-') : "d\xc3\xa9j\xc3\xa0 ";
    for (auto& w : list) c.mix(w);
    for (auto& l : pos) { c.mix(l.size()); for (auto& w : l) c.mix(w); }
    c.describe([&](auto& o) { o << "dictionary " << pp::list(list) << " positions"; for (auto& l : pos) o << " [" << pp::list(l) << "]"; o << " output " << quote(before); });

    auto const want = ref::spell(dict, pos);
    for (auto& l : pos) for (auto& w : l) for (auto& d : dict) if (d.compare(0, w.size(), w) == 0 && &l == &pos[0]) c.nontrivial = true;
    c.label(want ? "spells a word" : dict.empty() ? "empty dictionary" : pos.empty() ? "empty range" : "no word");
    for (auto& l : pos) for (auto& w : l) if (gen::chars(w).size() > 1) { c.label("multi-character candidate"); goto done; }
done:
    ppocr::spell::Dictionary const d(list);
    std::string out = before;
    bool const got = ppocr::spell::WordDisambiguouser()(d, pos.cbegin(), pos.cend(), out);
    PBT_REQ(c, got == bool(want), "the search " << (got ? "succeeds with " : "fails, expected ") << quote(got ? out : *want));
    PBT_REQ(c, out == before + (want ? *want : ""), "output " << quote(out) << " instead of " << quote(before + (want ? *want : "")));
    // the same dictionary after saving and loading
    ppocr::spell::Dictionary back;
    { std::stringstream x; x << d; x >> back; }
    std::string out2 = before;
    bool const got2 = ppocr::spell::WordDisambiguouser()(back, pos.begin(), pos.end(), out2);
    PBT_REQ(c, got2 == got && out2 == out, "the reloaded dictionary gives " << quote(out2));
}

}
