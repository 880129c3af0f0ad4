// Text assembly keeps every position, space, punctuation mark and unknown glyph.
#include "pp_text.hpp"
#include "pp_dict.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"

namespace pbt {

PropertyInfo const property_info{"P24",
    "lines of 0..24 (now and then up to 9000) positions (letters with 1..5 candidates, punctuation, unknown), any set of spaces including one before the first glyph, dictionaries of 0..20 words partly made from the runs' candidates; against the reference assembly; "
    "non-trivial: at least one space, punctuation mark or unknown glyph next to letters", no_setup};

void property(Source& s, Case& c) {
    static std::vector<std::string> const letters{"a", "b", "c", "e", "o", "0", "rn", "m", "\xc3\xa9", "\xe2\x82\xac", "ab", "'a", "a.", "--", ".b", "@", "\"", "/", "\\", "_"};
    static std::string const punct = "!#$%&'()*+,-.:;<=>?[]{}";
    std::vector<std::string> tw = letters;
    for (char p : punct) tw.push_back(std::string(1, p));
    tw.push_back("..");
    static pp::WordTable const t(tw);
    std::size_t const np = punct.size();
    pp::Lists l(t);
    bool const longer = s.chance(1, 1000);
    unsigned const n = longer ? gen::huge(s, s.chance(1, 12) ? 9000 : 513) : unsigned(s.small(0, s.size_class() < 2 ? 7 : 24));
    unsigned const few = unsigned(s.range(2, letters.size()));
    bool special = false;
    for (unsigned i = 0; i < n; ++i) {
        l.position();
        switch (s.weighted({6, 2, 2})) {
            case 0: {
                std::size_t last = s.u(few);
                for (unsigned k = longer && !s.chance(1, 20) ? 1 : unsigned(s.small(1, 5)); k; --k) {
                    l.candidate(last, unsigned(s.u(2)));
                    if (!s.chance(1, 3)) last = s.chance(1, 10) ? s.u(t.words.size()) : s.u(few);
                }
                break;
            }
            case 1: l.candidate(letters.size() + s.u(np), 0); special = true; for (unsigned k = unsigned(s.small(0, 2)); k; --k) l.candidate(s.u(t.words.size()), 1); break;
            default: special = true; break;
        }
    }
    l.done();
    std::set<std::size_t> spaces;
    std::vector<unsigned> sp;
    unsigned const rate = unsigned(s.u(6));
    for (unsigned i = 0; i < n; ++i) if (s.chance(rate, 6)) { spaces.insert(i); sp.push_back(i); special = special || i; }
    sp.push_back(n);
    std::vector<std::string> words;
    for (unsigned k = unsigned(s.small(0, 20)); k; --k) {
        if (n && s.chance(3, 4)) {
            std::string w;
            std::size_t const a = s.u(n), e = std::min<std::size_t>(n, a + s.small(1, 6));
            for (std::size_t i = a; i < e && !l.model[i].empty(); ++i) w += s.pick(l.model[i]).word;
            if (!w.empty()) words.push_back(w);
        }
        else words.push_back(gen::text_word(s, 3));
    }
    c.mix(l.describe()); for (auto x : sp) c.mix(x); for (auto& w : words) c.mix(w);
    c.describe([&](auto& o) { o << l.describe() << " spaces before"; for (auto x : spaces) o << ' ' << x; o << " dictionary " << pp::list(words); });
    c.nontrivial = special && n > 1;
    ppocr::spell::Dictionary const d(words);
    auto const want = ref::assemble(l.model, spaces, std::set<std::string>(words.begin(), words.end()));
    std::string text = s.flip() ? "" : "old";
    unsigned const unknown = ppocr::ocr2::disambiguous_with_dict(l.ambiguous, t.glyphs, d, sp.cbegin(), text);
    PBT_REQ(c, text == want.text, "text " << quote(text) << " instead of " << quote(want.text));
    PBT_REQ(c, unknown == want.unknown, unknown << " unknown glyphs instead of " << want.unknown);
    PBT_REQ(c, pp::same(l.now(), l.model), "the candidate lists changed");
    if (want.unknown) c.label("unknown glyphs");
    if (!spaces.empty()) c.label("spaces");
    if (spaces.count(0)) c.label("space before the first glyph");
    if (n && (l.model[0].empty() || ref::is_punct(l.model[0][0].word))) c.label("starts with punctuation or unknown");
}

}
