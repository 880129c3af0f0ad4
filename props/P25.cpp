// Text iteration visits each character of valid UTF-8 exactly once.
#include "gen.hpp"
#include <cstdint>
#include <cstring>
#include "ppocr/utils/utf.hpp"

namespace pbt {

PropertyInfo const property_info{"P25",
    "texts of 0..40 code points of every encoded length (edges of the ranges included) held in buffers of exactly their size plus the final zero, and blocks of 512 consecutive code points so that a run visits every code point; "
    "non-trivial: at least one multi-byte character", no_setup};

namespace {
void check(Case& c, std::vector<std::uint32_t> const& cps) {
    std::string text;
    std::vector<std::string> ch;
    for (auto x : cps) { ch.push_back(ref::utf8(x)); text += ch.back(); }
    std::vector<char> buf(text.begin(), text.end());
    buf.push_back('\0');
    ppocr::utf::UTF8toUnicodeIterator u(buf.data());
    ppocr::utf::UTF8Iterator p(reinterpret_cast<std::uint8_t const*>(buf.data()));
    std::size_t at = 0;
    std::string spelled;
    for (std::size_t i = 0; i < cps.size(); ++i) {
        at += ch[i].size();
        PBT_REQ(c, *u == cps[i] && u.code() == cps[i], "code point " << i << " is " << *u << " instead of " << cps[i]);
        PBT_REQ(c, *p == ref::packed(ch[i]) && p.code() == *p, "packed character " << i << " is " << *p << " instead of " << ref::packed(ch[i]));
        PBT_REQ(c, u.pos() == reinterpret_cast<std::uint8_t const*>(buf.data()) + at, "position after character " << i << " is wrong");
        PBT_REQ(c, p.pos() == reinterpret_cast<std::uint8_t const*>(buf.data()) + at, "position after packed character " << i << " is wrong");
        for (int k = 24; k >= 0; k -= 8) if (*p >> k & 255) spelled += char(*p >> k & 255);
        auto& ru = ++u; auto& rp = ++p;
        PBT_REQ(c, &ru == &u && &rp == &p, "increment does not return the iterator");
    }
    PBT_REQ(c, *u == 0 && *p == 0, "no zero at the end");
    PBT_REQ(c, spelled == text, "spelling the packed values gives another text");
}
}

void property(Source& s, Case& c) {
    std::vector<std::uint32_t> v;
    if (s.chance(1, 4)) {
        std::uint32_t b = std::uint32_t(s.u(0x110000 / 512)) * 512;
        for (std::uint32_t k = 0; k < 512; ++k) { std::uint32_t const x = b + k; if (x && !(x >= 0xd800 && x < 0xe000)) v.push_back(x); }
        c.label("block");
        c.mix(b);
        c.describe([&](auto& o) { o << "code points from " << b; });
    }
    else {
        for (unsigned n = s.chance(1, 2000) ? gen::huge(s, 5000) : unsigned(s.small(0, 40)); n; --n) v.push_back(gen::code_point(s));
        std::string t;
        for (auto x : v) t += ref::utf8(x);
        c.mix(t);
        c.describe([&](auto& o) { o << quote(t); });
        c.label("random text");
    }
    for (auto x : v) if (x >= 0x80) c.nontrivial = true;
    check(c, v);
}

}
