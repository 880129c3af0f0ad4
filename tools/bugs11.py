S = "src/ppocr/"
bug("b07-zones", "P07", S + "strategies/utils/count_zone.hpp", [("                ++m.writable_get(mirror[i]-1);", "                ++m.writable_get((mirror[i]-1) & 0xFFFF);")],
  "a picture with more than 65536 separate background regions", "the borders they touch are counted for others",
  cpp=r'''#include "ppocr/strategies/zone.hpp"
#include "ppocr/strategies/utils/count_zone.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {10u, 500u}) {
        std::string s; for (unsigned y = 0; y < n; ++y) { if (y) s += '/'; for (unsigned x = 0; x < n; ++x) s += (x ^ y) & 1 ? '-' : 'x'; }
        strategies::utils::count_zone_fn f; f.compute(pic(s)); auto& z = f.value();
        EXPECT(z.count_zone() == n * n / 2);
        EXPECT(z.top().count_used_zone() == n / 2 && z.bottom().count_used_zone() == n / 2 && z.left().count_used_zone() == n / 2 && z.right().count_used_zone() == n / 2);
        EXPECT(z.bottom()[n * n / 2 - 1] + z.bottom()[n * n / 2 - 2] == 2);
    }
    return bad;
}''')
bug("b20-byte", "P20", S + "ocr2/filter_by_lines.cpp", [("    std::vector<unsigned> uint_buffer(", "    std::vector<unsigned char> uint_buffer(")],
  "a line where more than 255 glyphs end on one row", "the count wraps and another row is taken for the base line",
  cpp=r'''#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/words_infos.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs g; std::istringstream a("1 1 x\n2\na f 0\nb f 0\n"); a >> g;
    ocr2::WWordsLines wl; std::istringstream b("a 1 1 1 4\n"); b >> wl;
    ocr2::WordsInfos w(g, wl);
    std::size_t res[2];
    for (unsigned k = 0; k < 2; ++k) {
        unsigned const n = k ? 257 : 5; // on row 10, and two on row 15
        std::vector<Box> boxes; for (unsigned i = 0; i < n; ++i) boxes.push_back({{i * 3, 0}, {2, 10}});
        for (unsigned i = 0; i < 2; ++i) boxes.push_back({{(n + i) * 3, 0}, {2, 15}});
        std::vector<ocr2::view_ref_list> l(boxes.size()); for (auto& x : l) { x.push_back(g[0][0]); x.push_back(g[0][1]); }
        ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
        ocr2::filter_by_lines(am, w, boxes);
        res[k] = l.front().size() * 10 + l.back().size();
    }
    EXPECT(res[0] == res[1]);
    return bad;
}''')
