// Threads that share tables and keep their own scratch state get what one thread gets.  Built with ThreadSanitizer.
#include "pp_recog.hpp"
#include "pp_tables.hpp"
#include "pp_text.hpp"
#include "gen_line.hpp"
#include "gen_dict.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/image/image_from_string.hpp"
#include "ppocr/ocr2/replacement.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/box_char/make_box_character.hpp"

#include <atomic>
#include <functional>
#include <thread>

namespace pbt {

PropertyInfo const property_info{"P41",
    "2..4 threads with lists of 1..4 operations each (recognition, feature extraction, cropping, loading pictures and tables, writing tables, building and searching dictionaries, line, font and text resolution, replacement rules) "
    "on shared tables and pictures with scratch state of their own, run together under ThreadSanitizer and then one after another; non-trivial: two threads use the same shared object", no_setup};

namespace {
/// the recogniser over shared tables, with its own scratch state
struct Own {
    pp::World const& w;
    ppocr::ocr2::Probabilities probs, tmp;
    ppocr::ocr2::ImageContext ictx;
    ppocr::PpOcrDataCtxs ctx;
    explicit Own(pp::World const& x) : w(x), probs(unsigned(x.g.size())), tmp(unsigned(x.g.size())) {}
    std::string recognise(ref::Pic const& p) {
        ppocr::Image const& img = ictx.img(ppocr::Bounds(p.w, p.h), [&](ppocr::Pixel* d) { std::memcpy(d, p.px.data(), p.px.size()); });
        auto const l = ppocr::ocr2::compute_image(ppocr::PpOcrSimpleDatas{}, ppocr::PpOcrComplexDatas{}, ppocr::PpOcrExclusiveDatas{},
            probs, tmp, w.datas, *w.ordered, *w.by_words, w.glyphs, w.id_views, img, ictx.img90(), ctx, 0.5);
        std::string r;
        for (auto& v : l) { auto it = w.where.find(&v.get()); r += it == w.where.end() ? "?" : std::to_string(it->second.first) + '.' + std::to_string(it->second.second) + ' '; }
        return r;
    }
};
using Op = std::function<std::string(Own&)>;
struct Candidate { std::size_t w; unsigned f; };
}

void property(Source& s, Case& c) {
    // shared
    std::vector<ref::Pic> bases;
    auto g = gen::glyphs(s, 8);
    for (auto& x : g) bases.push_back(x.pic);
    if (bases.empty()) { bases.push_back(gen::glyph_pic(s, 10, 10)); g.push_back({bases[0], {{"a", "f", 0}}}); }
    std::vector<ref::Features> f;
    for (auto& x : g) f.push_back(ref::features(x.pic));
    std::string const glyph_text = ref::glyph_file(g), data_text = ref::feature_table(f);
    c.mix(glyph_text);
    pp::World const w(g, f, s.flip());
    ref::Pic const line = gen::glyph_pic(s, 30, 12);
    pp::mix(c, line);
    auto const shared_image = pp::image(line);
    std::string const path = scratch_dir() + "/f", line_file = gen::encode(s, line);
    write_file(path, line_file);
    auto words = gen::word_list(s, 12, false);
    ppocr::spell::Dictionary const dict(words);
    auto const known = pp::words(dict);
    for (auto& x : known) c.mix(x);
    static pp::WordTable const table({"a", "b", "p", "q", "-", ".", "ab", "rn"});
    ppocr::ocr2::WWordsLines lines;
    std::string info;
    for (auto& x : table.words) if (s.flip()) info += x + " 0 0 " + std::to_string(s.u(7)) + ' ' + std::to_string(s.u(7)) + '\n';
    { std::istringstream i(info); i >> lines; }
    c.mix(info);
    ppocr::ocr2::WordsInfos const infos(table.glyphs, lines);
    ppocr::ocr2::Replacements rules;
    { std::string t; for (unsigned n = unsigned(s.range(0, 3)); n; --n) t += std::string(1, "abc"[s.u(3)]) + (s.flip() ? " x" : "") + "\n"; std::istringstream i(t); i >> rules; c.mix(t); }
    ppocr::ocr2::Replacements const& fixed_rules = rules;

    unsigned const n = unsigned(s.range(2, 4));
    std::vector<std::vector<Op>> ops(n);
    std::vector<unsigned> used(11);
    std::string shown;
    for (auto& list : ops) {
        unsigned seen = 0;
        for (unsigned k = unsigned(s.range(1, 4)); k; --k) {
            unsigned const kind = unsigned(s.u(11));
            seen |= 1u << kind;
            c.mix(kind);
            shown += std::to_string(kind) + ' ';
            switch (kind) {
                case 0: case 1: {
                    ref::Pic const q = s.flip() ? s.pick(bases) : gen::mutate(s, s.pick(bases), 4);
                    pp::mix(c, q);
                    list.push_back([q](Own& o) { return o.recognise(q); });
                    break;
                }
                case 2: {
                    ref::Pic const q = gen::glyph_pic(s, 14, 14);
                    pp::mix(c, q);
                    list.push_back([q](Own& o) { auto const a = pp::image(q); o.ctx.reset(); return ref::feature_table({pp::shared(a, a.rotate90(), o.ctx)}); });
                    break;
                }
                case 3: list.push_back([&](Own&) { // the shared picture
                    std::string r;
                    unsigned x = 0;
                    while (auto const b = ppocr::make_box_character(shared_image, {x, 0}, shared_image.bounds())) { auto const i = shared_image.section(b.index(), b.bounds()); r += pp::value(i) + pp::value(i.rotate90()); x = b.x() + b.width(); }
                    return r + pp::value(shared_image.clone());
                }); break;
                case 4: list.push_back([&](Own&) { return pp::value(ppocr::image_from_file(path.c_str())); }); break;
                case 5: { // a table of one's own, or writing the shared one
                    unsigned const t = unsigned(s.u(5));
                    list.push_back([&, t](Own&) {
                        std::istringstream i(t == 2 ? data_text : glyph_text);
                        if (t == 0) { ppocr::ocr2::Glyphs x; i >> x; return pp::value(x); }
                        if (t == 1) { ppocr::loader2::Glyphs x; i >> x; return pp::value(x); }
                        if (t == 2) { ppocr::PpOcrDatas x; i >> x; return pp::value(x); }
                        if (t == 3) { ppocr::PpOcrDatas x; for (auto& p : bases) x.load(pp::image(p)); return pp::value(x); }
                        return pp::value(w.datas);
                    });
                    break;
                }
                case 6: { // search
                    std::vector<std::vector<std::string>> lists;
                    for (auto& x : known.empty() ? std::vector<std::string>{"a"} : gen::chars(s.pick(known))) { lists.push_back({x}); if (s.flip()) lists.back().insert(lists.back().begin(), gen::character(s)); }
                    for (auto& l : lists) for (auto& x : l) c.mix(x);
                    list.push_back([&, lists](Own&) { std::string out; bool const ok = ppocr::spell::WordDisambiguouser()(dict, lists.begin(), lists.end(), out); return (ok ? "found " : "none ") + out; });
                    break;
                }
                case 7: { bool const own = s.flip(); list.push_back([&, own](Own&) { return own ? pp::value(ppocr::spell::Dictionary(words)) : pp::value(dict); }); break; }
                case 8: { // resolution of a line
                    std::vector<std::vector<Candidate>> lists(s.small(0, 8));
                    std::vector<ppocr::Box> boxes;
                    std::vector<unsigned> spaces;
                    for (std::size_t i = 0; i < lists.size(); ++i) {
                        for (unsigned k = unsigned(s.range(0, 4)); k; --k) lists[i].push_back({s.u(table.words.size()), unsigned(s.u(3))});
                        boxes.push_back(ppocr::Box({unsigned(i * 10), unsigned(s.u(6))}, {5, unsigned(s.range(1, 10))}));
                        if (i && s.chance(1, 4)) spaces.push_back(unsigned(i));
                        for (auto& x : lists[i]) { c.mix(x.w); c.mix(x.f); }
                    }
                    spaces.push_back(unsigned(lists.size()));
                    list.push_back([&, lists, boxes, spaces](Own&) {
                        pp::Lists l(table);
                        for (auto& x : lists) { l.position(); for (auto& y : x) l.candidate(y.w, y.f); }
                        l.done();
                        std::string text;
                        ppocr::ocr2::filter_by_lines(l.ambiguous, infos, boxes);
                        unsigned const font = ppocr::ocr2::filter_by_font(l.ambiguous);
                        unsigned const unknown = ppocr::ocr2::disambiguous_with_dict(l.ambiguous, table.glyphs, dict, spaces.cbegin(), text);
                        return text + ' ' + std::to_string(unknown) + ' ' + std::to_string(font) + pp::Lists::str(l.now());
                    });
                    break;
                }
                case 9: { // rules
                    std::string t;
                    for (unsigned n = unsigned(s.range(0, 12)); n; --n) t += "abcd"[s.u(4)];
                    c.mix(t);
                    list.push_back([&, t](Own&) { std::string r = t; ppocr::ocr2::replace_words(r, fixed_rules); return r; });
                    break;
                }
                default: { // words and indexes of the shared tables
                    unsigned const v = unsigned(s.u(201)), d = unsigned(s.u(40));
                    list.push_back([&, v, d](Own&) {
                        std::string r = pp::value(w.glyphs);
                        for (auto& x : w.words) for (auto& y : x) r += std::to_string(w.glyphs.word_index_of(y)) + ' ';
                        for (std::size_t i = 0; i < w.g.size(); ++i) for (auto j : (*w.by_words)[i]) r += std::to_string(j) + ' ';
                        for (auto i : w.ordered->get_range(w.datas, v, d)) r += std::to_string(i) + ' ';
                        ppocr::ocr2::DataIndexesByWords const b(w.glyphs);
                        for (auto i : ppocr::ocr2::get_views_indexes_ordered(w.glyphs)) r += std::to_string(i) + ' ';
                        return r;
                    });
                }
            }
        }
        for (unsigned k = 0; k < used.size(); ++k) if (seen >> k & 1) { ++used[k]; c.label("operation " + std::to_string(k)); }
        shown += "| ";
    }
    c.nontrivial = std::any_of(used.begin(), used.end(), [](unsigned k) { return k > 1; }) || used[0] + used[1] > 1;
    c.describe([&](auto& o) { o << n << " threads " << shown << "with " << gen::describe(g) << " line " << ref::show(line) << " words"; for (auto& x : known) o << ' ' << quote(x); });

    auto run = [&](std::size_t i) {
        Own own(w);
        std::vector<std::string> r;
        for (auto& op : ops[i]) try { r.push_back(op(own)); } catch (std::exception const& e) { r.push_back(std::string("\x01") + e.what()); }
        return r;
    };
    std::vector<std::vector<std::string>> together(n);
    {
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> threads;
        for (unsigned i = 0; i < n; ++i) threads.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); together[i] = run(i); });
        for (auto& t : threads) t.join();
    }
    for (unsigned i = 0; i < n; ++i) {
        auto const alone = run(i);
        for (std::size_t k = 0; k < alone.size(); ++k)
            PBT_REQ(c, alone[k] == together[i][k], "operation " << k << " of thread " << i << " (" << shown << ") gives " << quote(together[i][k], 1000) << " with other threads and " << quote(alone[k], 1000) << " alone");
    }
}

}
