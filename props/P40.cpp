// Running out of memory or refusing a file leaves no trace.
#include "allocfault.hpp"
#include "pp_recog.hpp"
#include "pp_tables.hpp"
#include "pp_text.hpp"
#include "gen_line.hpp"
#include "gen_dict.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/ocr2/replacement.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/box_char/make_box_character.hpp"

#include <optional>

namespace pbt {

PropertyInfo const property_info{"P40",
    "one operation of the library (loading a picture or a table from a file, writing one, feature extraction and recognition with kept scratch state, segmentation and cropping, building, saving, loading and searching a dictionary, line, font and text resolution, replacement rules) during which the k-th allocation, or all from the k-th on, fail, "
    "and loading a damaged file; then the same operation undisturbed; non-trivial: an allocation failed or a file was refused", no_setup};

namespace {
struct Fault { std::int64_t k; bool all; };
std::string const failed = "\x01stream failed";

/// op(Fault) does the operation, with the library's part armed, and returns something that stands for its result;
/// it may fail with an exception, or with the value `failed`
template<class Op> void disturb(Source& s, Case& c, char const* what, bool keeps, Op op) {
    c.label(what);
    std::string const want = op(Fault{-1, false});
    PBT_REQ(c, op(Fault{-1, false}) == want, what << ": repeated, gives something else");
    std::int64_t const n = allocfault::count, held = allocfault::live, size = allocfault::bytes;
    bool const again = op(Fault{-1, false}) == want;
    PBT_REQ(c, again, what << ": the third time, gives something else");
    PBT_REQ(c, allocfault::live <= held && allocfault::bytes <= size, what << ": done again, holds " << allocfault::live - held << " blocks and " << allocfault::bytes - size << " bytes more");
    PBT_REQ(c, want != failed, what << ": fails undisturbed");
    if (!n) { c.label("no allocation"); return; }
    for (unsigned tries = unsigned(s.range(1, 3)); tries; --tries) {
        Fault const f{std::int64_t(s.chance(1, 3) ? std::uint64_t(n) - 1 - s.u(std::min<std::uint64_t>(std::uint64_t(n), 4)) : s.u(std::uint64_t(n))), s.chance(1, 4)};
        c.mix(std::uint64_t(f.k)); c.mix(f.all);
        std::int64_t const live = allocfault::live;
        int const fd = next_fd();
        bool thrown = false, wrong = false;
        {
            std::string got;
            try { got = op(f); } catch (std::exception const&) { thrown = true; allocfault::armed = false; }
            wrong = !thrown && got != want && got != failed;
        }
        if (allocfault::fired) c.nontrivial = true;
        PBT_REQ(c, !wrong, what << ": with allocation " << f.k << " of " << n << (f.all ? " and all later ones" : "") << " failing, reports success with another result");
        PBT_REQ(c, keeps || allocfault::live == live, what << ": with allocation " << f.k << " of " << n << (f.all ? " and all later ones" : "") << " failing, " << allocfault::live - live << " blocks stay allocated");
        PBT_REQ(c, !files_left(fd), what << ": with allocation " << f.k << " of " << n << " failing, a file stays open");
        PBT_REQ(c, op(Fault{-1, false}) == want, what << ": after allocation " << f.k << " of " << n << (f.all ? " and all later ones" : "") << " failed, the same operation gives something else");
    }
}
template<class T, class Load> void file(Source& s, Case& c, char const* what, std::string bytes, std::string const& bad, Load load) {
    std::string const path = scratch_dir() + "/f";
    c.mix(bytes);
    if (s.chance(1, 3)) { // refused, without a trace
        std::size_t const at = bytes.empty() ? 0 : s.u(bytes.size() + 1);
        bytes = s.flip() ? bytes.substr(0, at) + bad : s.flip() ? bytes.substr(0, at) : bytes + bad;
        c.mix(bytes);
        write_file(path, bytes);
        c.describe([&](auto& o) { o << what << ' ' << quote(bytes); });
        auto once = [&] { bool ok = true; try { T const x = load(path.c_str()); } catch (std::exception const&) { ok = false; } return ok; };
        bool const first = once();
        std::int64_t const live = allocfault::live;
        int const fd = next_fd();
        bool const ok = once();
        PBT_REQ(c, ok == first, what << " is " << (first ? "accepted" : "refused") << " and then " << (ok ? "accepted" : "refused") << ": " << quote(bytes));
        PBT_REQ(c, allocfault::live == live, "loading " << what << " leaves " << allocfault::live - live << " blocks allocated: " << quote(bytes));
        PBT_REQ(c, !files_left(fd), "loading " << what << " leaves a file open: " << quote(bytes));
        if (!ok) c.nontrivial = true;
        c.label(ok ? "damaged file accepted" : "damaged file refused");
        return;
    }
    write_file(path, bytes);
    c.describe([&](auto& o) { o << what << ' ' << quote(bytes); });
    disturb(s, c, what, false, [&](Fault const& f) {
        std::optional<T> x;
        { allocfault::Arm a(f.k, f.all); x.emplace(load(path.c_str())); }
        return pp::value(*x);
    });
}
/// written to a stream in memory
template<class T> void written(Source& s, Case& c, char const* what, T const& x) {
    disturb(s, c, what, false, [&](Fault const& f) {
        std::ostringstream o;
        { allocfault::Arm a(f.k, f.all); o << x; }
        return o ? o.str() : failed;
    });
}
}

void property(Source& s, Case& c) {
    switch (s.u(16)) {
        case 0: case 1: {
            ref::Pic const p = gen::glyph_pic(s, 30, 30);
            file<ppocr::Image>(s, c, "picture", gen::encode(s, p), "\nx", [](char const* f) { return ppocr::image_from_file(f); });
            break;
        }
        case 2: file<ppocr::ocr2::Glyphs>(s, c, "glyph table", ref::glyph_file(gen::glyphs(s, 20)), "1 1 x\none\n", [](char const* f) { return ppocr::utils::load_from_file<ppocr::ocr2::Glyphs>(f); }); break;
        case 3: file<ppocr::loader2::Glyphs>(s, c, "glyph file", ref::glyph_file(gen::glyphs(s, 20)), "1 1 x\none\n", [](char const* f) { return ppocr::utils::load_from_file<ppocr::loader2::Glyphs>(f); }); break;
        case 4: {
            std::vector<ref::Features> f;
            for (unsigned n = unsigned(s.small(0, 8)); n; --n) f.push_back(ref::features(gen::glyph_pic(s, 12, 12)));
            file<ppocr::PpOcrDatas>(s, c, "feature table", ref::feature_table(f), "x\n", [](char const* f) { return ppocr::utils::load_from_file<ppocr::PpOcrDatas>(f); });
            break;
        }
        case 5: {
            std::string t;
            for (unsigned n = unsigned(s.small(0, 10)); n; --n) { t += gen::token(s, 9); for (unsigned k = 0; k < 4; ++k) t += ' ' + std::to_string(s.u(8)); t += '\n'; }
            file<ppocr::ocr2::WWordsLines>(s, c, "line positions", t, "ab 1 x\n", [](char const* f) { return ppocr::utils::load_from_file<ppocr::ocr2::WWordsLines>(f); });
            break;
        }
        case 6: {
            std::ostringstream o;
            o << ppocr::spell::Dictionary(gen::word_list(s, 20, false));
            file<ppocr::spell::Dictionary>(s, c, "dictionary", o.str(), "z 1\n", [](char const* f) { return ppocr::utils::load_from_file<ppocr::spell::Dictionary>(f); });
            break;
        }
        case 7: { // building
            auto const w = gen::word_list(s, 20, true);
            for (auto& x : w) c.mix(x);
            c.describe([&](auto& o) { o << "dictionary of"; for (auto& x : w) o << ' ' << quote(x); });
            disturb(s, c, "building a dictionary", false, [&](Fault const& f) {
                std::optional<ppocr::spell::Dictionary> d;
                auto copy = w;
                { allocfault::Arm a(f.k, f.all); d.emplace(std::move(copy)); }
                return pp::value(*d);
            });
            break;
        }
        case 8: { // searching
            ppocr::spell::Dictionary const d(gen::word_list(s, 20, false));
            std::vector<std::vector<std::string>> lists;
            auto const all = pp::words(d);
            auto const w = all.empty() ? std::vector<std::string>{"a"} : gen::chars(s.pick(all));
            for (auto& x : w) { lists.push_back({x}); if (s.flip()) lists.back().insert(lists.back().begin(), gen::character(s)); }
            for (auto& l : lists) for (auto& x : l) c.mix(x);
            c.mix(pp::value(d));
            c.describe([&](auto& o) { o << "search"; for (auto& l : lists) { o << " ["; for (auto& x : l) o << ' ' << quote(x); o << " ]"; } o << " in " << quote(pp::value(d)); });
            disturb(s, c, "searching a dictionary", false, [&](Fault const& f) {
                std::string out;
                bool ok;
                { allocfault::Arm a(f.k, f.all); ok = ppocr::spell::WordDisambiguouser()(d, lists.begin(), lists.end(), out); }
                return (ok ? "found " : "none ") + out;
            });
            written(s, c, "saving a dictionary", d);
            break;
        }
        case 9: if (s.chance(1, 3)) { // adding a picture to a feature table
            std::vector<ref::Features> f;
            for (unsigned n = unsigned(s.small(0, 5)); n; --n) f.push_back(ref::features(gen::glyph_pic(s, 12, 12)));
            std::string const before = ref::feature_table(f);
            ref::Pic const p = gen::glyph_pic(s, 30, 30);
            f.push_back(ref::features(p));
            std::string const after = ref::feature_table(f);
            pp::mix(c, p); c.mix(before);
            c.describe([&](auto& o) { o << "adding " << ref::show(p) << " to " << quote(before); });
            auto const img = pp::image(p);
            std::string left = before;
            disturb(s, c, "adding to a feature table", false, [&](Fault const& x) {
                ppocr::PpOcrDatas d;
                { std::istringstream i(before); i >> d; }
                try { allocfault::Arm a(x.k, x.all); d.load(img); }
                catch (std::exception const&) { allocfault::armed = false; left = pp::value(d); throw; }
                return pp::value(d);
            });
            PBT_REQ(c, left == before, "adding " << ref::show(p) << " failed and left the table as " << quote(left) << " instead of " << quote(before));
            ppocr::PpOcrDatas d;
            { std::istringstream i(before); i >> d; }
            d.load(img);
            PBT_REQ(c, pp::value(d) == after, "the table after adding is " << quote(pp::value(d)));
            break;
        }
        else if (s.chance(1, 3)) { // a picture tried again with the scratch state that ran out of memory, which had seen another one
            ref::Pic const first = gen::glyph_pic(s, 8, 8), p = gen::glyph_pic(s, 30, 30);
            pp::mix(c, first); pp::mix(c, p);
            std::int64_t const k = std::int64_t(s.u(8));
            c.mix(std::uint64_t(k));
            c.label("features tried again");
            c.describe([&](auto& o) { o << "features of " << ref::show(first) << ", then of " << ref::show(p) << " with allocation " << k << " failing"; });
            auto const a = pp::image(first), b = pp::image(p), a90 = a.rotate90(), b90 = b.rotate90();
            ppocr::PpOcrDataCtxs ctx;
            if (s.flip()) { ctx.reset(); pp::shared(a, a90, ctx); }
            ctx.reset();
            try { allocfault::Arm x(k, false); pp::shared(b, b90, ctx); } catch (std::exception const&) { allocfault::armed = false; c.nontrivial = true; }
            pp::same_features(c, pp::shared(b, b90, ctx), ref::features(p), "features of " + ref::show(p) + " tried again after allocation " + std::to_string(k) + " failed");
            break;
        }
        else if (s.chance(1, 2)) { // a history of pictures with one buffer and one scratch state, some of which run out of memory and are tried again
            ppocr::PpOcrDataCtxs ctx;
            ppocr::ocr2::ImageContext buf;
            std::ostringstream shown;
            c.label("history with failures");
            for (unsigned n = unsigned(s.range(2, 6)); n; --n) {
                ref::Pic const p = gen::glyph_pic(s, unsigned(s.range(1, 30)), unsigned(s.range(1, 30)));
                std::int64_t const k = s.flip() ? std::int64_t(s.u(7)) : -1;
                bool const again = s.flip();
                pp::mix(c, p); c.mix(std::uint64_t(k)); c.mix(again);
                shown << ' ' << ref::show(p, 200) << (k < 0 ? "" : " with allocation " + std::to_string(k) + " failing") << (again ? ", again" : "") << ';';
                auto step = [&](std::int64_t at) {
                    std::optional<ref::Features> got;
                    try {
                        allocfault::Arm a(at, false);
                        ppocr::Image const& img = buf.img({p.w, p.h}, [&](ppocr::Pixel* d) { if (!d) throw std::runtime_error("null"); std::memcpy(d, p.px.data(), p.px.size()); });
                        ppocr::Image const& img90 = buf.img90();
                        ctx.reset();
                        got.emplace(pp::shared(img, img90, ctx));
                    }
                    catch (std::bad_alloc const&) { allocfault::armed = false; c.nontrivial = true; PBT_REQ(c, at >= 0, "out of memory without a failing allocation:" << shown.str()); return; }
                    catch (std::runtime_error const&) { allocfault::armed = false; PBT_REQ(c, false, "the buffer is null:" << shown.str()); }
                    pp::same_features(c, *got, ref::features(p), "history" + shown.str());
                };
                step(k);
                if (again) step(-1);
            }
            c.describe([&](auto& o) { o << "features of" << shown.str(); });
            break;
        }
        else { // feature extraction with kept scratch state and buffer
            { // used for several pictures and given up
                std::vector<ref::Pic> seen;
                for (unsigned n = unsigned(s.range(1, 5)); n; --n) { seen.push_back(gen::glyph_pic(s, 30, 30)); pp::mix(c, seen.back()); }
                std::int64_t const live = allocfault::live;
                {
                    ppocr::PpOcrDataCtxs ctx;
                    ppocr::ocr2::ImageContext buf;
                    ppocr::PpOcrDatas table;
                    for (auto& p : seen) {
                        ppocr::Image const& img = buf.img({p.w, p.h}, [&](ppocr::Pixel* d) { std::memcpy(d, p.px.data(), p.px.size()); });
                        ctx.reset();
                        pp::shared(img, buf.img90(), ctx);
                        table.load(img);
                    }
                }
                PBT_REQ(c, allocfault::live == live, "scratch state and buffer used for " << seen.size() << " pictures of up to 30x30 leave " << allocfault::live - live << " blocks allocated");
            }
            ppocr::PpOcrDataCtxs ctx;
            ppocr::ocr2::ImageContext buf;
            for (unsigned n = unsigned(s.range(1, 4)); n; --n) {
                ref::Pic const p = s.chance(1, 4) ? gen::any_pic(s, 60, 60) : gen::glyph_pic(s, 30, 30);
                pp::mix(c, p);
                c.describe([&](auto& o) { o << "features of " << ref::show(p); });
                std::optional<ref::Features> last;
                disturb(s, c, "features", true, [&](Fault const& f) {
                    {
                        allocfault::Arm a(f.k, f.all);
                        ppocr::Image const& img = buf.img({p.w, p.h}, [&](ppocr::Pixel* d) { std::memcpy(d, p.px.data(), p.px.size()); });
                        ppocr::Image const& img90 = buf.img90();
                        ctx.reset();
                        last.emplace(pp::shared(img, img90, ctx));
                    }
                    std::ostringstream o;
                    o << ref::feature_table({*last});
                    return o.str();
                });
                pp::same_features(c, *last, ref::features(p), "features of " + ref::show(p));
            }
            break;
        }
        case 10: { // recognition
            std::vector<ref::Pic> bases;
            auto g = pp::learned_set(s, bases);
            std::vector<ref::Features> f;
            for (auto& x : g) f.push_back(ref::features(x.pic));
            c.mix(ref::glyph_file(g));
            c.describe([&](auto& o) { o << "recognition among " << gen::describe(g); });
            pp::World w(g, f, s.flip());
            for (unsigned n = unsigned(s.range(1, 3)); n; --n) {
                ref::Pic const q = s.flip() ? s.pick(g).pic : gen::mutate(s, s.pick(bases), 4);
                pp::mix(c, q);
                std::vector<std::size_t> last;
                if (s.flip()) { // the first attempt runs out of memory
                    std::int64_t const k = std::int64_t(s.u(40));
                    c.mix(std::uint64_t(k));
                    bool ok = false;
                    try { allocfault::Arm a(k, false); last = w.recognise(q); ok = true; } catch (std::bad_alloc const&) { allocfault::armed = false; }
                    if (ok) { auto const e = ref::check_recognition(ref::recognise(f, w.words, ref::features(q)), last); PBT_REQ(c, e.empty(), "picture " << ref::show(q, 300) << " recognised with allocation " << k << " failing: " << e); }
                }
                disturb(s, c, "recognition", true, [&](Fault const& x) {
                    std::vector<std::size_t> r;
                    { allocfault::Arm a(x.k, x.all); r = w.recognise(q); }
                    last = r;
                    return pp::str(r);
                });
                auto const e = ref::check_recognition(ref::recognise(f, w.words, ref::features(q)), last);
                PBT_REQ(c, e.empty(), "picture " << ref::show(q, 300) << " recognised with failing allocations between: " << e);
            }
            break;
        }
        case 11: { // a whole world: tables and indexes
            std::vector<ref::Pic> bases;
            auto const g = gen::glyphs(s, 12);
            std::vector<ref::Features> f;
            for (auto& x : g) f.push_back(ref::features(x.pic));
            c.mix(ref::glyph_file(g));
            c.describe([&](auto& o) { o << "indexes of " << gen::describe(g); });
            ppocr::ocr2::Glyphs t;
            { std::istringstream i(ref::glyph_file(g)); i >> t; }
            ppocr::PpOcrDatas d;
            { std::istringstream i(ref::feature_table(f)); i >> d; }
            disturb(s, c, "indexes", false, [&](Fault const& x) {
                std::ostringstream o;
                std::optional<ppocr::ocr2::DataIndexesByWords> b;
                std::optional<ppocr::ocr2::DataIndexesOrdered<pp::First>> r;
                std::vector<unsigned> ids;
                { allocfault::Arm a(x.k, x.all); b.emplace(t); ids = ppocr::ocr2::get_views_indexes_ordered(t); r.emplace(d); }
                for (std::size_t i = 0; i < g.size(); ++i) { for (auto j : (*b)[i]) o << j << ' '; o << ids[i] << '\n'; }
                for (auto i : r->get_range(d, 50, 100)) o << i << ' ';
                return o.str();
            });
            unsigned const room = unsigned(s.chance(1, 8) ? s.u(3) : g.size());
            c.mix(room);
            disturb(s, c, "scores", false, [&](Fault const& x) {
                std::ostringstream o;
                std::optional<ppocr::ocr2::Probabilities> a, b;
                { allocfault::Arm arm(x.k, x.all); a.emplace(room); b.emplace(room); }
                if (room && (!a->begin() || !b->begin())) return std::string("no room");
                for (unsigned i = 0; i < room; ++i) { a->emplace_back(i, i / 2.); b->push_back({i, i / 4.}); }
                swap(*a, *b);
                for (auto& y : *a) o << y.i << ' ' << y.prob << '\n';
                for (auto& y : *b) o << y.i << ' ' << y.prob << '\n';
                return o.str();
            });
            written(s, c, "writing a feature table", d);
            break;
        }
        case 12: { // segmentation, crops, turns
            ref::Pic const p = s.chance(1, 4) ? gen::any_pic(s, 60, 60) : gen::glyph_pic(s, 40, 20);
            pp::mix(c, p);
            c.describe([&](auto& o) { o << "crops of " << ref::show(p); });
            auto const img = pp::image(p);
            disturb(s, c, "crops and turns", false, [&](Fault const& f) {
                std::vector<ppocr::Image> v;
                {
                    allocfault::Arm a(f.k, f.all);
                    unsigned x = 0;
                    while (auto const b = ppocr::make_box_character(img, {x, 0}, img.bounds())) { v.push_back(img.section(b.index(), b.bounds())); v.push_back(v.back().rotate90()); v.push_back(v.back().clone()); x = b.x() + b.width(); }
                }
                std::string r;
                for (auto& i : v) r += pp::value(i);
                return r;
            });
            pp::same_pic(c, img, p, "picture after cropping");
            break;
        }
        case 13: { // replacement rules
            std::string rules, text;
            auto word = [&] { std::string r; for (unsigned n = unsigned(s.range(1, 20)); n; --n) r += "abc"[s.u(2)]; return r; };
            for (unsigned n = unsigned(s.range(0, 4)); n; --n) { rules += word() + (s.flip() ? " " + word() : "") + "\n"; text += word(); }
            text += rules;
            for (char& x : text) if (x == ' ' || x == '\n') x = 'a';
            c.mix(rules); c.mix(text);
            c.describe([&](auto& o) { o << "rules " << quote(rules) << " on " << quote(text); });
            disturb(s, c, "replacement", false, [&](Fault const& f) {
                std::istringstream i(rules);
                std::string t = text;
                bool ok;
                { allocfault::Arm a(f.k, f.all); ppocr::ocr2::Replacements r; i >> r; ok = i.eof() && !i.bad(); if (ok) ppocr::ocr2::replace_words(t, r); }
                return ok ? t : failed;
            });
            break;
        }
        default: { // line, font and text resolution
            static pp::WordTable const t({"a", "b", "p", "q", "-", ".", "ab", "rn"});
            struct Candidate { std::size_t w; unsigned f; };
            std::vector<std::vector<Candidate>> lists(s.small(0, 10));
            std::vector<ppocr::Box> boxes;
            std::vector<unsigned> spaces;
            std::string info, word;
            for (auto& w : t.words) if (s.flip()) info += w + " 0 0 " + std::to_string(s.u(7)) + ' ' + std::to_string(s.u(7)) + '\n';
            for (std::size_t i = 0; i < lists.size(); ++i) {
                for (unsigned k = unsigned(s.range(0, 4)); k; --k) lists[i].push_back({s.u(t.words.size()), unsigned(s.u(3))});
                unsigned const top = unsigned(s.u(6));
                boxes.push_back(ppocr::Box({unsigned(i * 10), top}, {5, unsigned(s.range(1, 10))}));
                if (i && s.chance(1, 4)) spaces.push_back(unsigned(i));
                if (!lists[i].empty()) word += t.words[lists[i][0].w];
            }
            spaces.push_back(unsigned(lists.size()));
            ppocr::spell::Dictionary const d(word.empty() ? std::vector<std::string>{"ab"} : std::vector<std::string>{word, "ab"});
            c.mix(info);
            for (auto& l : lists) { c.mix(l.size()); for (auto& x : l) { c.mix(x.w); c.mix(x.f); } }
            for (auto x : spaces) c.mix(x);
            c.describe([&](auto& o) { o << "text of"; for (auto& l : lists) { o << " ["; for (auto& x : l) o << ' ' << t.words[x.w] << '/' << x.f; o << " ]"; } o << " info " << quote(info); });
            disturb(s, c, "text resolution", false, [&](Fault const& f) {
                pp::Lists l(t);
                for (auto& x : lists) { l.position(); for (auto& y : x) l.candidate(y.w, y.f); }
                l.done();
                ppocr::ocr2::WWordsLines wl;
                { std::istringstream i(info); i >> wl; }
                std::string text;
                unsigned unknown, font;
                {
                    allocfault::Arm a(f.k, f.all);
                    ppocr::ocr2::WordsInfos const wi(t.glyphs, wl);
                    ppocr::ocr2::filter_by_lines(l.ambiguous, wi, boxes);
                    font = ppocr::ocr2::filter_by_font(l.ambiguous);
                    unknown = ppocr::ocr2::disambiguous_with_dict(l.ambiguous, t.glyphs, d, spaces.cbegin(), text);
                }
                return text + ' ' + std::to_string(unknown) + ' ' + std::to_string(font) + pp::Lists::str(l.now());
            });
        }
    }
}

}
