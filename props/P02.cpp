// Damaged or unsupported image files are refused, never misread.
#include "pp.hpp"
#include "ppocr/image/image_from_file.hpp"

#include <iostream>
#include <unistd.h>
#include <sys/stat.h>

namespace pbt {

PropertyInfo const property_info{"P02",
    "a well-formed file damaged at random (truncated, extended, bytes replaced or swapped, numbers replaced by zero, huge, negative, blank or 32-bit-overflowing ones, wrong kind), or random bytes after a magic; "
    "non-trivial: at least one damage was applied to a file that had a valid magic", no_setup};

void property(Source& s, Case& c) {
    std::string f;
    std::string const path = scratch_dir() + "/i.pnm";
    unsigned const lum = s.flip() ? 128 : unsigned(s.range(0, 260));
    unsigned const form = s.weighted({8, 4, 2, 1, 1});
    bool expect_missing = false;
    if (form == 3) { // not a readable file
        expect_missing = true;
        std::string const dir = scratch_dir() + "/dir";
        mkdir(dir.c_str(), 0700);
        std::string const p = s.flip() ? dir : scratch_dir() + "/no-such-file";
        try { auto i = ppocr::image_from_file(p.c_str(), lum); }
        catch (std::exception const&) { c.label("no file"); c.checks++; c.mix(p); return; }
        fail("a missing file or directory was loaded: " + p);
    }
    ref::Pic p = gen::any_pic(s, 40, 40);
    char const kind = "4613"[s.u(4)];
    if (form == 4) { // sizes whose product or row size wraps around, with little data
        struct WH { char const *w, *h; };
        static WH const wh[] = {{"65536", "65536"}, {"65537", "65536"}, {"131072", "32768"}, {"4294967295", "1"}, {"4294967295", "2"}, {"4294967289", "1"}, {"4294967288", "1"}, {"4294967290", "3"}, {"2147483648", "2"}, {"2147483648", "4"},
            {"4294967296", "1"}, {"4294967297", "1"}, {"1", "4294967296"}, {"0", "4294967295"}, {"0", "0"}, {"0", "5"}, {"5", "0"}, {"1", "4294967297"}, {"2863311531", "3"}, {"99999999999", "1"}, {"18446744073709551615", "1"}, {"18446744073709551617", "1"}, {"1", "18446744073709551617"}};
        auto const& e = wh[s.u(sizeof wh / sizeof *wh)];
        // areas between 64 MB and 4 GB are legal requests for memory, only for kinds whose length is checked first do we try them
        double const w = std::strtod(e.w, nullptr), h = std::strtod(e.h, nullptr), area = w * h;
        if (w <= 4294967295. && h <= 4294967295. && area > 67108864. && area <= 4294967295.) discard();
        f = std::string("P") + kind + "\n" + e.w + " " + e.h + "\n";
        if (kind == '6' || kind == '3') f += "255\n";
        unsigned const n = unsigned(s.small(0, 40));
        for (unsigned i = 0; i < n; ++i) f += kind == '1' || kind == '3' ? char('0' + s.u(2)) : char(s.u(256));
        c.label("size limits");
        c.nontrivial = true;
    }
    else if (form == 2) { // grammar-like soup
        static char const* const tok[] = {"P", "1", "3", "4", "6", "2", "5", "\n", " ", "0", "#", "8", "255", "1 1\n", "P4\n", "P1\n", "P6\n", "P3\n", "2 2\n", "\r", "-1", "+1", "\t", "# c\n", "\xff", "00", "4294967296"};
        f = s.chance(3, 4) ? std::string("P") + kind + "\n" : "";
        unsigned const n = unsigned(s.range(0, 14));
        for (unsigned i = 0; i < n; ++i) f += tok[s.u(sizeof tok / sizeof *tok)];
        c.label("token soup");
        c.nontrivial = f.size() > 3;
    }
    else {
        f = kind == '4' ? ref::encode_p4(p) : kind == '6' ? ref::encode_p6(p) : ref::encode_p1(p, kind);
        if (s.chance(1, 3)) f.insert(3, s.flip() ? "# hello\n" : "#\n#x\n");
        unsigned const n = form == 1 ? unsigned(s.range(2, 6)) : 1;
        for (unsigned k = 0; k < n && !f.empty(); ++k) {
            std::size_t const header = std::min<std::size_t>(f.size(), 16);
            switch (s.u(12)) {
                case 0: f.resize(f.size() - s.range(1, std::min<std::size_t>(f.size(), 4))); c.label("short"); break;
                case 1: f.resize(s.u(f.size())); c.label("cut"); break;
                case 2: f += std::string(s.range(1, 4), "01 \nx"[s.u(5)]); c.label("extended"); break;
                case 3: f[s.u(header)] = char(s.u(256)); c.label("header byte"); break;
                case 4: f[s.u(f.size())] = "012x \n\r"[s.u(7)]; c.label("byte"); break;
                case 5: f.erase(s.u(header), 1); c.label("header byte lost"); break;
                case 6: f.insert(s.u(header + 1), 1, " \n0#9-+\r"[s.u(8)]); c.label("header byte added"); break;
                case 7: f[1 % f.size()] = char('0' + s.u(10)); c.label("kind"); break;
                case 8: { // another number
                    std::size_t a = f.find_first_of("0123456789", std::min<std::size_t>(f.size(), 2));
                    if (a == std::string::npos) break;
                    std::size_t e = f.find_first_not_of("0123456789", a);
                    if (e == std::string::npos) e = f.size();
                    static char const* const nums[] = {"0", "", "-1", "1", "7", "8", "9", "4294967296", "4294967297", "99999999999999999999", "0x1", " 1", "1 "};
                    f.replace(a, e - a, nums[s.u(sizeof nums / sizeof *nums)]);
                    c.label("number");
                    break;
                }
                case 9: { std::size_t a = s.u(f.size()), b = s.u(f.size()); std::swap(f[a], f[b]); c.label("swap"); break; }
                case 10: f.erase(s.u(f.size()), 1); c.label("byte lost"); break;
                case 11: f.insert(s.u(f.size() + 1), 1, char(s.u(256))); c.label("byte added"); break;
            }
        }
        c.nontrivial = true;
    }
    c.describe([&](auto& o) { o << "threshold " << lum << " file " << quote(f, 200); });
    c.mix(f); c.mix(lum);
    auto const d = ref::decode_image(f, lum);
    if (!d.ok && d.why == "length" && form != 4) {
        // keep declared sizes small enough that allocating them is unremarkable
        std::size_t a = 0; (void)a;
    }
    {
        // declared area in the zone where only memory decides
        unsigned w = 0, h = 0;
        std::size_t q = 3;
        while (q < f.size() && f[q] == '#') { std::size_t e = f.find('\n', q); q = e == std::string::npos ? f.size() : e + 1; }
        if (q < f.size() && std::sscanf(f.c_str() + q, "%10u %10u", &w, &h) == 2) {
            unsigned __int128 const area = static_cast<unsigned __int128>(w) * h;
            if (area > (64u << 20) && area <= 0xffffffffu) discard();
        }
    }
    write_file(path, f);
    bool loaded = false;
    ref::Pic got;
    try {
        auto const img = ppocr::image_from_file(path.c_str(), lum);
        loaded = true;
        got = pp::pic(img);
    }
    catch (std::exception const& e) {}
    c.label(d.ok ? "still valid" : "refused: " + d.why);
    PBT_REQ(c, loaded == d.ok, "file " << quote(f) << (loaded ? " was loaded as " + ref::show(got) : std::string(" was refused")) << " but the grammar says " << (d.ok ? "valid " + ref::show(d.pic) : "invalid: " + d.why));
    if (loaded) PBT_REQ(c, got == d.pic, "decoded " << ref::show(got) << " instead of " << ref::show(d.pic) << " from " << quote(f));
    (void)expect_missing;
}

}
