// Replacement rules are read and applied exactly as written.
#include "pbt.hpp"
#include "gen.hpp"
#include "ppocr/ocr2/replacement.hpp"

namespace pbt {

PropertyInfo const property_info{"P26",
    "rules files of 0..8 (now and then 3000) rules (patterns and replacements of 1..5 characters over a small alphabet, replacements absent, containing or equal to their pattern, last line with or without newline) and texts of 0..60 (now and then 25000) characters; "
    "non-trivial: at least one rule changes the text", no_setup};

void property(Source& s, Case& c) {
    auto small_word = [&](unsigned max) { std::string r; for (unsigned n = s.chance(1, 4000) ? gen::huge(s, 600) : unsigned(s.small(1, max)); n; --n) r += s.chance(1, 8) ? "\xc3\xa9" : std::string(1, "abc"[s.u(s.flip() ? 2 : 3)]); return r; };
    struct R { std::string p, r; };
    std::vector<R> rules;
    std::string file;
    for (unsigned n = unsigned(s.small(0, 8)); n; --n) {
        R x{small_word(4), ""};
        switch (s.u(4)) {
            case 0: break;
            case 1: x.r = small_word(5); break;
            case 2: x.r = (s.flip() ? small_word(2) : "") + x.p + (s.flip() ? small_word(2) : ""); break;
            default: x.r = x.p.substr(0, s.range(1, x.p.size())); break;
        }
        if (static_cast<unsigned char>(x.r.empty() ? 'a' : x.r.back()) == 0xc3) x.r += '\xa9';
        rules.push_back(x);
        file += x.p;
        if (!x.r.empty()) { file += s.chance(1, 6) ? "\t" : " "; file += x.r; }
        file += "\n";
    }
    if (s.chance(1, 8000)) { // a long file
        unsigned n = gen::huge(s, 3000);
        gen::Bulk b(s);
        for (; n; --n) { R x{"abc"[b.u(3)] + std::to_string(b.u(300)), b.u(3) ? std::string(1, "abcd"[b.u(4)]) : ""}; file += x.p + (x.r.empty() ? "" : " ") + x.r + "\n"; rules.push_back(x); }
        c.label("many rules");
    }
    bool const cut = s.flip();
    if (cut && !file.empty()) file.pop_back();
    std::string text;
    for (unsigned n = unsigned(s.small(0, 20)); n; --n) {
        if (!rules.empty() && s.flip()) { auto const& r = s.pick(rules); text += s.chance(1, 5) ? r.r : r.p; }
        else text += small_word(2);
        if (s.chance(1, 6)) text += ' ';
    }
    if (s.chance(1, 5000)) { // a long text
        gen::Bulk b(s);
        unsigned const a = 1 + unsigned(s.u(3));
        for (unsigned n = s.flip() ? gen::huge(s, 25000) : unsigned(s.range(9000, 25000)); n; --n) text += b.u(40) ? "abc"[b.u(a)] : ' ';
        c.label("long text");
    }
    c.mix(file); c.mix(text);
    c.describe([&](auto& o) { o << "rules " << quote(file) << " text " << quote(text); });

    ppocr::ocr2::Replacements got;
    if (s.chance(1, 50)) { // a file that could not be opened, or a stream that failed before
        std::istringstream i(file);
        i.setstate(s.flip() ? std::ios::failbit : std::ios::badbit);
        i >> got;
        PBT_REQ(c, got.empty() && !i, "rules were read from a stream that had failed");
    }
    { std::istringstream i(file); i >> got; PBT_REQ(c, i.eof(), "reading stopped before the end"); }
    PBT_REQ(c, got.size() == rules.size(), got.size() << " rules instead of " << rules.size());
    for (std::size_t i = 0; i < rules.size(); ++i)
        PBT_REQ(c, got[i].pattern == rules[i].p && got[i].replace == rules[i].r, "rule " << i << " is " << quote(got[i].pattern) << " -> " << quote(got[i].replace) << " instead of " << quote(rules[i].p) << " -> " << quote(rules[i].r));
    std::string want = text;
    for (auto& r : rules) {
        std::string o;
        for (std::size_t i = 0; i < want.size(); ) {
            if (want.compare(i, r.p.size(), r.p) == 0) { o += r.r; i += r.p.size(); }
            else o += want[i++];
        }
        want = o;
        if (want.size() > 100000) discard();
    }
    c.nontrivial = want != text;
    std::string t = text;
    ppocr::ocr2::replace_words(t, got);
    PBT_REQ(c, t == want, "text is " << quote(t) << " instead of " << quote(want));
    c.label(cut ? "no newline at the end" : "newline at the end");
    if (c.nontrivial) c.label("text changes");
}

}
