// Word lists and candidate lists.
#ifndef VERIF_GEN_DICT_HPP
#define VERIF_GEN_DICT_HPP

#include "gen.hpp"

namespace gen {
/// one character of a small alphabet with every encoded length
inline std::string character(Source& s) {
    static char const* const alpha[] = {"a", "b", "c", "e", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd0\xbf", "\x7f", "\xc2\x80"};
    return s.chance(1, 12) ? ref::utf8(code_point(s)) : alpha[s.flip() ? s.u(3) : s.u(10)];
}
inline std::string text_word(Source& s, unsigned max) {
    std::string r;
    for (unsigned n = unsigned(s.small(1, max)); n; --n) r += character(s);
    return r;
}
inline std::vector<std::string> chars(std::string const& w) {
    std::vector<std::string> r;
    for (std::size_t i = 0; i < w.size(); ) {
        unsigned char const c = static_cast<unsigned char>(w[i]);
        std::size_t const n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        r.push_back(w.substr(i, n));
        i += n;
    }
    return r;
}
inline std::vector<std::string> word_list(Source& s, unsigned max, bool blanks) {
    static unsigned const caps[4] = {3, 8, 25, 120};
    std::vector<std::string> v;
    if (s.chance(1, 300)) { // nodes with hundreds of children, thousands of nodes, words of hundreds of characters
        unsigned n = huge(s, 2049);
        unsigned const kind = unsigned(s.u(3));
        Bulk b(s);
        if (kind == 0) for (; n; --n) v.push_back(ref::utf8(std::uint32_t(0x4e00 + b.u(0x5000))) + (b.u(2) ? "" : "a"));
        else if (kind == 1) for (; n; --n) { std::string w; for (std::uint64_t k = 1 + b.u(6); k; --k) w += char('a' + b.u(26)); v.push_back(w); }
        else {
            n = std::min(n, 600u);
            std::string w;
            for (; n; --n) { w += b.u(9) ? std::string(1, char('a' + b.u(2))) : std::string("\xd0\xbf"); if (!b.u(40)) v.push_back(w); }
            v.push_back(w);
        }
        return v;
    }
    for (unsigned n = unsigned(s.range(0, std::min(max, caps[s.size_class()]))); n; --n) {
        unsigned const k = s.weighted({4, 3, 1, 1, 1});
        if (k == 0 || v.empty()) v.push_back(text_word(s, 5));
        else if (k == 1) { std::string w = s.pick(v); v.push_back(w + text_word(s, 2)); }
        else if (k == 2) v.push_back(s.pick(v));
        else if (k == 3) { auto ch = chars(s.pick(v)); std::string w; for (std::size_t i = 0, e = ch.empty() ? 0 : s.range(1, ch.size()); i < e; ++i) w += ch[i]; v.push_back(w.empty() ? "a" : w); }
        else if (blanks) v.push_back("");
        else v.push_back(text_word(s, 9));
    }
    return v;
}
}
#endif
