// Well-formed image files decode to exactly the picture they describe.
#include "pp.hpp"
#include "ppocr/image/image_from_file.hpp"

#include <iostream>
#include <unistd.h>

namespace pbt {

PropertyInfo const property_info{"P01",
    "a picture of random size (1x1 up to about 900 columns) is encoded as P1, P3, P4 or P6 with random comments, padding bits, blanks, colours and threshold, then loaded; "
    "non-trivial: the decoded picture has both ink and background or is a single row, column or pixel", no_setup};

namespace {
std::string comments(Source& s) {
    std::string r;
    bool const more = s.chance(1, 400);
    unsigned const n = more && s.flip() ? gen::huge(s, 300) : unsigned(s.small(0, 4));
    for (unsigned i = 0; i < n; ++i) {
        r += '#';
        if (more && s.flip()) r += std::string(gen::huge(s, 9000), 'c');
        unsigned const l = unsigned(s.small(0, 30));
        for (unsigned k = 0; k < l; ++k) r += "# 0123P\tx\xff\r"[s.u(11)];
        r += '\n';
    }
    return r;
}
std::string number(Source& s, std::uint64_t v) { return std::string(s.chance(1, 8) ? s.range(1, 3) : 0, '0') + std::to_string(v); }
}

void property(Source& s, Case& c) {
    char const kind = "4613"[s.u(4)];
    ref::Pic p = gen::any_pic(s);
    bool const default_luminance = s.chance(1, 3);
    unsigned lum = 128;
    if (!default_luminance) lum = s.chance(1, 5) ? unsigned(s.range(0, 300)) : unsigned(s.range(1, 256));
    std::string f = std::string("P") + kind + "\n" + comments(s) + number(s, p.w) + " " + number(s, p.h) + "\n";
    ref::Pic want = p;
    if (kind == '6' || kind == '3') f += number(s, s.pick(std::vector<unsigned>{255, 1, 0, 7, 65535, 4294967295u})) + "\n";
    if (kind == '6') {
        unsigned const mode = s.weighted({3, 3, 2});
        unsigned char pal[8][3];
        for (auto& col : pal) for (auto& ch : col) ch = static_cast<unsigned char>(s.pick(std::vector<unsigned>{0, 255, unsigned(s.u(256)), unsigned(s.u(256)), std::min(255u, lum), lum ? std::min(255u, lum - 1) : 0}));
        std::string body;
        std::uint32_t r = 0;
        for (std::size_t i = 0; i < p.px.size(); ++i) {
            unsigned char rgb[3];
            if (mode == 0) { // plain ink and background
                unsigned char v = p.px[i] == 'x' ? pal[0][0] : pal[1][0];
                rgb[0] = rgb[1] = rgb[2] = v;
            }
            else if (mode == 1) { // palette
                if (i % 8 == 0) r = s.bits32();
                std::memcpy(rgb, pal[(r >> (i % 8 * 4)) & 7], 3);
            }
            else { // any colours, pulled towards the threshold
                r = s.bits32();
                rgb[0] = static_cast<unsigned char>(r); rgb[1] = static_cast<unsigned char>(r >> 8); rgb[2] = static_cast<unsigned char>(r >> 16);
                if (r >> 31) {
                    int left = int(lum) - int((511u * rgb[0] + 511) >> 10) - int((117u * rgb[2] + 511) >> 10);
                    int g = left * 1024 / 396 + int(r >> 28 & 3) - 1;
                    rgb[1] = static_cast<unsigned char>(std::min(255, std::max(0, g)));
                }
            }
            body.append(reinterpret_cast<char const*>(rgb), 3);
        }
        f += body;
        want = ref::decode_image(f, lum).pic;
    }
    else if (kind == '4') {
        std::string body = ref::encode_p4(p);
        body = body.substr(body.find('\n', 3) + 1);
        if (p.w % 8 && s.flip()) { // padding bits mean nothing
            std::size_t const stride = (p.w + 7) / 8;
            std::uint32_t r = s.bits32();
            for (unsigned y = 0; y < p.h; ++y) { auto& b = body[y * stride + stride - 1]; b = char((static_cast<unsigned char>(b) & ~((1u << (8 - p.w % 8)) - 1)) | ((r >> (y % 24)) & ((1u << (8 - p.w % 8)) - 1))); }
        }
        f += body;
    }
    else {
        unsigned const style = unsigned(s.u(4));
        std::uint32_t r = 0;
        for (std::size_t i = 0; i < p.px.size(); ++i) {
            f += p.px[i] == 'x' ? '1' : '0';
            if (style == 0) f += (i + 1) % p.w ? "" : "\n";
            else if (style == 1) f += (i + 1) % p.w ? " " : "\n";
            else if (style == 2) { if (i % 8 == 0) r = s.bits32(); unsigned k = (r >> (i % 8 * 4)) & 15; f += k < 8 ? "" : k < 11 ? " " : k < 13 ? "\n" : k == 13 ? " \n" : k == 14 ? "   " : "\n\n"; }
        }
        unsigned const extra = unsigned(s.small(0, 6));
        for (unsigned i = 0; i < extra; ++i) f += s.flip() ? ' ' : '\n';
    }
    c.describe([&](auto& o) { o << "P" << kind << " threshold " << (default_luminance ? "default" : std::to_string(lum)) << " file " << quote(f, 200); });
    c.mix(f); c.mix(lum);
    auto const d = ref::decode_image(f, lum);
    if (!d.ok || (kind != '6' && d.pic != p)) { std::cerr << "harness: bad P01 encoding: " << d.why << "\n"; _exit(2); }
    want = d.pic;
    c.label(std::string("P") + kind);
    c.label(want.w == 1 || want.h == 1 ? "one row or column" : want.w * want.h > 2000 ? "large" : "normal");
    c.nontrivial = (gen::has_ink(want) && gen::has_background(want)) || want.w == 1 || want.h == 1;

    std::string const path = scratch_dir() + "/i.pnm";
    write_file(path, f);
    try {
        auto const got = default_luminance ? ppocr::image_from_file(path.c_str()) : ppocr::image_from_file(path.c_str(), lum);
        pp::same_pic(c, got, want, "decoded picture");
        auto const again = ppocr::image_from_file(path.c_str(), lum);
        pp::same_pic(c, again, want, "picture decoded again");
    }
    catch (std::exception const& e) { fail(std::string("well-formed file refused: ") + e.what()); }
}

}
