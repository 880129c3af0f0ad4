// Moved, copied, assigned and exchanged objects hold what was put in, and copies are independent.
#define _GLIBCXX_ASSERTIONS 1 // an element of an empty list cannot be referred to
#include "pp_recog.hpp"
#include "pp_tables.hpp"
#include "pp_text.hpp"
#include "gen_line.hpp"
#include "gen_dict.hpp"
#include "ppocr/ocr2/replacement.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/indexes_ordered.hpp"
#include "ppocr/ocr2/probabilities.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"

#include <optional>
#include <type_traits>

namespace pbt {

PropertyInfo const property_info{"P42",
    "a history of 2..14 steps (made, moved into a new or an old object, copied, assigned, exchanged, kept in a growing list, changed, dropped) over four objects of one of 13 kinds "
    "(picture, glyph table, glyph file, feature table, dictionary, tree, line information, line positions, both indexes, rules, scratch state, scored candidates), all of them compared with a model after each step; "
    "non-trivial: something was moved, copied or exchanged while it had contents", no_setup};

namespace {
using std::to_string;

template<class T> [[gnu::noinline]] T* fresh(void* p) { return new (p) T; }

struct Pictures {
    using T = ppocr::Image; using M = ref::Pic;
    static std::pair<T, M> make(Source& s) { M p = gen::glyph_pic(s, 12, 12); return {pp::image(p), p}; }
    static void change(Source& s, T& x, M& m) {
        switch (s.u(3)) {
            case 0: x = x.rotate90(); m = ref::turn(m); break;
            case 1: x = x.clone(); break;
            default: {
                unsigned const x0 = unsigned(s.u(m.w)), y0 = unsigned(s.u(m.h)), w = unsigned(s.range(1, m.w - x0)), h = unsigned(s.range(1, m.h - y0));
                x = x.section({x0, y0}, {w, h});
                m = ref::crop(m, x0, y0, w, h);
            }
        }
    }
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        pp::same_pic(c, x, m, what.c_str());
        PBT_REQ(c, bool(x), what << ": the picture has no pixels");
        PBT_REQ(c, pp::value(x) == ref::printed(m), what << ": printed as " << pp::value(x));
    }
};
struct GlyphTables {
    using T = ppocr::ocr2::Glyphs; using M = std::vector<ref::Glyph>;
    static std::pair<T, M> make(Source& s) {
        if (s.chance(1, 10)) { // holds nothing, wherever it is made
            alignas(T) static unsigned char raw[sizeof(T)];
            for (unsigned char volatile& b : raw) b = 0x5a;
            T* const x = fresh<T>(raw);
            std::pair<T, M> r(std::move(*x), M{});
            x->~T();
            return r;
        }
        M m = gen::glyphs(s, 5);
        T x;
        std::istringstream i(ref::glyph_file(m));
        i >> x;
        return {std::move(x), m};
    }
    static void change(Source& s, T& x, M& m) { // entries can be exchanged and dropped
        if (m.empty()) return;
        std::size_t const a = s.u(m.size()), b = s.u(m.size());
        if (s.flip()) { if (a != b) { std::swap(x[a], x[b]); std::swap(m[a], m[b]); } }
        else { x.erase(x.begin() + std::ptrdiff_t(a)); m.erase(m.begin() + std::ptrdiff_t(a)); }
    }
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        PBT_REQ(c, x.size() == m.size(), what << ": " << x.size() << " glyphs instead of " << m.size());
        for (std::size_t i = 0; i < m.size(); ++i) {
            PBT_REQ(c, x[i].size() == m[i].labels.size(), what << ": glyph " << i << " has " << x[i].size() << " labels instead of " << m[i].labels.size());
            for (std::size_t k = 0; k < x[i].size(); ++k) {
                PBT_REQ(c, pp::text(x, x[i][k]) == m[i].labels[k].word, what << ": label " << k << " of glyph " << i << " is " << quote(pp::text(x, x[i][k])) << " instead of " << quote(m[i].labels[k].word));
                PBT_REQ(c, x.word_index_of(m[i].labels[k].word) == x[i][k].word, what << ": word " << quote(m[i].labels[k].word) << " is not found under its number");
                PBT_REQ(c, (x[i][k].font == x[0][0].font) == (m[i].labels[k].font == m[0].labels[0].font) || m[0].labels.empty(), what << ": fonts of glyph " << i);
            }
        }
        PBT_REQ(c, x.word_index_of("no such word, ever") == ppocr::ocr2::Glyphs::no_index, what << ": a word that is not there is found");
    }
};
struct GlyphFiles {
    using T = ppocr::loader2::Glyphs; using M = std::vector<ref::Glyph>;
    static std::pair<T, M> make(Source& s) { M m = gen::glyphs(s, 5); return {pp::learned(m), m}; }
    static void change(Source& s, T& x, M& m) {
        auto more = [&] { auto v = gen::glyphs(s, 3); return v; };
        switch (s.u(5)) {
            case 0: { auto v = more(); std::istringstream i(ref::glyph_file(v)); i >> x; m.insert(m.end(), v.begin(), v.end()); break; }
            case 1: if (!m.empty()) { std::size_t const a = s.u(m.size()); x.erase(x.begin() + std::ptrdiff_t(a)); m.erase(m.begin() + std::ptrdiff_t(a)); } break;
            case 2: { auto v = more(); auto l = pp::learned(v); std::size_t const a = s.u(m.size() + 1); x.insert(x.begin() + std::ptrdiff_t(a), std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); m.insert(m.begin() + std::ptrdiff_t(a), v.begin(), v.end()); break; }
            case 3: std::reverse(x.begin(), x.end()); std::reverse(m.begin(), m.end()); break;
            default: std::stable_sort(x.begin(), x.end(), [](auto& a, auto& b) { return a.views < b.views; });
                std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) {
                    auto key = [](ref::Label const& l) { return std::tie(l.word, l.font, l.line); };
                    return std::lexicographical_compare(a.labels.begin(), a.labels.end(), b.labels.begin(), b.labels.end(), [&](auto& p, auto& q) { return key(p) < key(q); });
                });
        }
    }
    static void check(Case& c, T& x, M const& m, std::string const& what) { pp::same_glyphs(c, pp::plain(x), m, what); }
};
struct FeatureTables {
    using T = ppocr::PpOcrDatas; using M = std::vector<ref::Features>;
    static std::pair<T, M> make(Source& s) {
        M m;
        T x;
        bool const read = s.flip();
        for (unsigned n = unsigned(s.small(0, 3)); n; --n) { auto p = gen::glyph_pic(s, 8, 8); m.push_back(ref::features(p)); if (!read) x.load(pp::image(p)); }
        if (read) { std::istringstream i(ref::feature_table(m)); i >> x; }
        return {std::move(x), m};
    }
    static void change(Source& s, T& x, M& m) { auto p = gen::glyph_pic(s, 12, 12); x.load(pp::image(p)); m.push_back(ref::features(p)); }
    static void check(Case& c, T& x, M const& m, std::string const& what) { PBT_REQ(c, x.size() == m.size() && pp::value(x) == ref::feature_table(m), what << ": the table is " << quote(pp::value(x), 500) << " instead of " << quote(ref::feature_table(m), 500)); }
};
struct Dictionaries {
    using T = ppocr::spell::Dictionary; using M = std::set<std::string>;
    static M set(std::vector<std::string> const& v) { M m(v.begin(), v.end()); m.erase(""); return m; }
    static std::pair<T, M> make(Source& s) {
        if (s.chance(1, 10)) return {};
        auto const w = gen::word_list(s, 8, true);
        return {T(w), set(w)};
    }
    static void change(Source& s, T& x, M& m) {
        auto const w = gen::word_list(s, 4, false);
        if (s.flip()) { x = T(w); m = set(w); }
        else { std::stringstream i; i << T(w); i >> x; m = set(w); }
    }
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        auto w = pp::words(x);
        std::sort(w.begin(), w.end());
        PBT_REQ(c, std::equal(w.begin(), w.end(), m.begin(), m.end()) && x.empty() == m.empty(), what << ": holds " << pp::list(w) << "instead of " << pp::list({m.begin(), m.end()}));
        for (auto& k : m) {
            std::vector<std::vector<std::string>> l;
            for (auto& ch : gen::chars(k)) l.push_back({ch});
            std::string out;
            PBT_REQ(c, ppocr::spell::WordDisambiguouser()(x, l.begin(), l.end(), out) && out == k, what << ": " << quote(k) << " is not found");
        }
    }
};
struct Trees {
    using T = ppocr::container::trie<std::uint32_t>; using M = std::set<std::string>;
    static std::pair<T, M> make(Source& s) {
        M const m = s.chance(1, 8) ? M{} : Dictionaries::set(gen::word_list(s, 8, false));
        std::vector<pp::Symbols> v;
        for (auto& w : m) v.push_back(pp::symbols(w));
        std::sort(v.begin(), v.end());
        return {T(v.begin(), v.end()), m};
    }
    static void change(Source& s, T& x, M& m) { auto n = make(s); x = std::move(n.first); m = n.second; }
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        std::vector<std::string> w;
        pp::Symbols p;
        below(x, p, w);
        std::sort(w.begin(), w.end());
        PBT_REQ(c, std::equal(w.begin(), w.end(), m.begin(), m.end()), what << ": holds " << pp::list(w) << "instead of " << pp::list({m.begin(), m.end()}));
        ppocr::container::flat_trie<std::uint32_t> const f(x);
        for (auto& k : m) PBT_REQ(c, pp::contains(f.childrens(), k), what << ": flat, " << quote(k) << " is not there");
        PBT_REQ(c, m.empty() == f.all().empty() && f.childrens().empty() == std::size_t(m.empty()), what << ": flat, emptiness");
    }
    static void below(T const& t, pp::Symbols& p, std::vector<std::string>& out) {
        for (auto& n : t) { p.push_back(n.get()); if (n.is_terminal()) out.push_back(pp::spelled(p)); below(n.childrens(), p, out); p.pop_back(); }
    }
};
pp::WordTable const& table() { static pp::WordTable const t({"a", "b", "p", "q", "-", ".", "ab", "rn"}); return t; }
std::string line_text(Source& s) {
    std::string r;
    for (auto& w : table().words) if (s.flip()) { r += w; for (int k = 0; k < 4; ++k) r += ' ' + to_string(s.u(7)); r += '\n'; }
    return r;
}
struct LinePositions {
    using T = ppocr::ocr2::WWordsLines; using M = std::string;
    static std::pair<T, M> make(Source& s) { M const t = line_text(s); T x; std::istringstream i(t); i >> x; return {std::move(x), t}; }
    static void change(Source& s, T& x, M& m) { auto n = make(s); x = std::move(n.first); m = n.second; }
    static std::string text(T const& l) {
        std::string r;
        for (auto& x : l) r += std::string(x.sv()) + ' ' + to_string(unsigned(x.wlines.ascentline)) + ' ' + to_string(unsigned(x.wlines.capline)) + ' ' + to_string(unsigned(x.wlines.meanline)) + ' ' + to_string(unsigned(x.wlines.baseline)) + '\n';
        return r;
    }
    static void check(Case& c, T& x, M const& m, std::string const& what) { PBT_REQ(c, text(x) == m, what << ": holds " << quote(text(x)) << " instead of " << quote(m)); }
};
struct LineInfo {
    using T = ppocr::ocr2::WordsInfos; using M = std::string;
    static std::pair<T, M> make(Source& s) {
        if (s.chance(1, 10)) return {};
        auto const l = LinePositions::make(s);
        return {T(table().glyphs, l.first), l.second};
    }
    static void change(Source&, T&, M&) {}
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        std::string got;
        for (std::size_t i = 0; i < table().words.size(); ++i) if (auto const* p = x.get(table().number(i))) {
            ppocr::ocr2::WordLines const& l = p->lines;
            got += table().words[i] + ' ' + to_string(unsigned(l.ascentline)) + ' ' + to_string(unsigned(l.capline)) + ' ' + to_string(unsigned(l.meanline)) + ' ' + to_string(unsigned(l.baseline)) + '\n';
        }
        PBT_REQ(c, got == m, what << ": holds " << quote(got) << " instead of " << quote(m));
    }
};
struct SameWord {
    using T = ppocr::ocr2::DataIndexesByWords; using M = std::vector<std::string>;
    static std::pair<T, M> make(Source& s) {
        auto const m = gen::glyphs(s, 6);
        ppocr::ocr2::Glyphs g;
        { std::istringstream i(ref::glyph_file(m)); i >> g; }
        M w;
        for (auto& x : m) w.push_back(x.labels[0].word);
        return {T(g), w};
    }
    static void change(Source&, T&, M&) {}
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        for (std::size_t i = 0; i < m.size(); ++i) {
            std::vector<unsigned> want, got(x[i]);
            for (std::size_t j = 0; j < m.size(); ++j) if (j != i && m[j] == m[i]) want.push_back(unsigned(j));
            std::sort(got.begin(), got.end());
            PBT_REQ(c, got == want, what << ": glyphs with the first word of glyph " << i << ": " << got.size() << " instead of " << want.size());
        }
    }
};
struct Ordered {
    using T = ppocr::ocr2::IndexesOrdered; using M = std::vector<unsigned>;
    static std::pair<T, M> make(Source& s) { M m; for (unsigned n = unsigned(s.small(1, 10)); n; --n) m.push_back(unsigned(s.u(12))); return {T(m), m}; }
    static void change(Source&, T&, M&) {}
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        for (unsigned lo = 0; lo < 13; lo += 3) {
            std::vector<unsigned> got, want;
            for (auto i : ppocr::ocr2::range_bounds(m, x, lo, lo + 4)) got.push_back(i);
            for (std::size_t i = 0; i < m.size(); ++i) if (m[i] >= lo && m[i] <= lo + 4) want.push_back(unsigned(i));
            std::sort(got.begin(), got.end());
            PBT_REQ(c, got == want, what << ": entries with values " << lo << ".." << lo + 4 << ": " << got.size() << " instead of " << want.size());
        }
    }
};
struct Rules {
    using T = ppocr::ocr2::Replacements; using M = std::vector<std::pair<std::string, std::string>>;
    static std::string word(Source& s) { std::string r; for (unsigned n = unsigned(s.range(1, 20)); n; --n) r += "abcd"[s.u(4)]; return r; }
    static std::pair<T, M> make(Source& s) { std::pair<T, M> r; for (unsigned n = unsigned(s.small(0, 3)); n; --n) change(s, r.first, r.second); return r; }
    static void change(Source& s, T& x, M& m) {
        m.push_back({word(s), s.flip() ? word(s) : ""});
        std::istringstream i(m.back().first + (m.back().second.empty() ? "" : " ") + m.back().second + "\n");
        i >> x;
    }
    static void check(Case& c, T& x, M const& m, std::string const& what) {
        PBT_REQ(c, x.size() == m.size(), what << ": " << x.size() << " rules instead of " << m.size());
        for (std::size_t i = 0; i < m.size(); ++i) PBT_REQ(c, x[i].pattern == m[i].first && x[i].replace == m[i].second, what << ": rule " << i << " is " << quote(x[i].pattern) << " to " << quote(x[i].replace));
    }
};
struct Scratch {
    using T = ppocr::PpOcrDataCtxs; using M = ref::Pic;
    static std::pair<T, M> make(Source& s) { std::pair<T, M> r; change(s, r.first, r.second); return r; }
    static void change(Source& s, T& x, M& m) { m = gen::glyph_pic(s, 10, 10); x.reset(); auto const i = pp::image(m); pp::shared(i, i.rotate90(), x); }
    static void check(Case& c, T& x, M const& m, std::string const& what) { auto const i = pp::image(m); pp::same_features(c, pp::shared(i, i.rotate90(), x), ref::features(m), what); }
};

template<class K> void history(Source& s, Case& c, char const* name) {
    using T = typename K::T; using M = typename K::M;
    struct Slot { std::optional<T> x; std::optional<M> m; }; // m: contents, unless nothing or moved from
    Slot slots[4];
    std::string log = std::string(name) + ":";
    c.label(name);
    auto all = [&] { for (auto& k : slots) if (k.m) K::check(c, *k.x, *k.m, log + " object " + to_string(&k - slots)); };
    auto put = [&](Slot& k, T&& x, M m, bool assign) {
        if constexpr (std::is_move_assignable_v<T>) { if (k.x && assign) { *k.x = std::move(x); k.m = std::move(m); return; } }
        k.x.reset();
        k.x.emplace(std::move(x));
        k.m = std::move(m);
    };
    for (unsigned k = 0; k < 2; ++k) { auto p = K::make(s); put(slots[k], std::move(p.first), std::move(p.second), false); }
    all();
    for (unsigned n = unsigned(s.range(2, 14)); n; --n) {
        unsigned const i = unsigned(s.u(4)), j = unsigned(s.u(4)), op = unsigned(s.u(9));
        bool const assign = s.flip();
        Slot& a = slots[i];
        Slot& b = slots[j];
        c.mix(op * 32 + i * 8 + j * 2 + assign);
        switch (op) {
            case 0: case 1: { // made
                auto p = K::make(s);
                log += " " + to_string(i) + (assign ? "=" : ":") + "new";
                put(a, std::move(p.first), std::move(p.second), assign);
                break;
            }
            case 2: case 3: // moved
                if (!b.m || i == j) continue;
                log += " " + to_string(i) + (assign ? "=" : ":") + "move(" + to_string(j) + ")";
                put(a, std::move(*b.x), *b.m, assign);
                b.m.reset();
                c.nontrivial = true;
                break;
            case 4: if constexpr (!std::is_same_v<K, GlyphFiles> && !std::is_same_v<K, Trees> && std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) { // copied, also to itself
                if (!b.m) continue;
                log += " " + to_string(i) + (assign ? "=" : ":") + to_string(j);
                if (assign && a.x) *a.x = *b.x;
                else if (i != j) { a.x.reset(); a.x.emplace(*b.x); }
                else continue;
                if (i != j) a.m = b.m;
                c.nontrivial = true;
                break;
            } else continue;
            case 5: if constexpr (std::is_swappable_v<T>) { // exchanged
                if (!a.m || !b.m || i == j) continue;
                log += " " + to_string(i) + "<>" + to_string(j);
                using std::swap;
                swap(*a.x, *b.x);
                swap(a.m, b.m);
                c.nontrivial = true;
                break;
            } else continue;
            case 6: { // into a growing list and back
                std::vector<T> v;
                std::vector<M> m;
                log += " list";
                for (auto& k : slots) if (k.m) { v.push_back(std::move(*k.x)); m.push_back(*k.m); for (std::size_t r = 0; r < v.size(); ++r) K::check(c, v[r], m[r], log + ", element " + to_string(r)); c.nontrivial = true; }
                if constexpr (std::is_move_assignable_v<T>) if (assign && !v.empty()) { std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); }
                std::size_t r = 0;
                for (auto& k : slots) if (k.m) { put(k, std::move(v[r]), m[r], assign); ++r; }
                break;
            }
            case 7: if (!a.m) continue; log += " change " + to_string(i); K::change(s, *a.x, *a.m); break;
            default: if (!a.x) continue; log += " drop " + to_string(i); a.x.reset(); a.m.reset();
        }
        all();
    }
    c.describe([&](auto& o) { o << log; });
}
void candidates(Source& s, Case& c) {
    struct Slot { std::optional<ppocr::ocr2::Probabilities> x; std::vector<std::pair<unsigned, double>> m; unsigned room = 0; };
    Slot slots[3];
    std::string log = "scored candidates:";
    c.label("scored candidates");
    for (unsigned n = unsigned(s.range(2, 20)); n; --n) {
        unsigned const i = unsigned(s.u(3)), j = unsigned(s.u(3)), op = unsigned(s.u(6));
        Slot& a = slots[i];
        Slot& b = slots[j];
        c.mix(op * 16 + i * 4 + j);
        if (op && !a.x) continue;
        switch (op) {
            case 0: a.room = unsigned(s.small(0, 6)); a.x.reset(); a.x.emplace(a.room); a.m.clear(); log += " " + to_string(i) + ":new " + to_string(a.room); break;
            case 1: case 2:
                if (a.m.size() == a.room) continue;
                a.m.push_back({unsigned(s.u(9)), double(s.u(5)) / 4});
                if (s.flip()) a.x->push_back({a.m.back().first, a.m.back().second}); else a.x->emplace_back(a.m.back().first, a.m.back().second);
                log += " add to " + to_string(i);
                break;
            case 3:
                if (!b.x) continue;
                if (s.flip()) a.x->swap(*b.x); else swap(*a.x, *b.x);
                if (i != j) { std::swap(a.m, b.m); std::swap(a.room, b.room); c.nontrivial = true; }
                log += " " + to_string(i) + "<>" + to_string(j);
                break;
            case 4: a.x->clear(); a.m.clear(); log += " clear " + to_string(i); break;
            default: a.m.resize(s.u(a.m.size() + 1)); a.x->resize(unsigned(a.m.size())); log += " shorten " + to_string(i);
        }
        for (auto& k : slots) if (k.x) {
            PBT_REQ(c, k.x->size() == k.m.size() && k.x->empty() == k.m.empty() && k.x->end() - k.x->begin() == std::ptrdiff_t(k.m.size()), log << ": list " << (&k - slots) << " has " << k.x->size() << " entries instead of " << k.m.size());
            for (unsigned r = 0; r < k.m.size(); ++r) PBT_REQ(c, (*k.x)[r].i == k.m[r].first && (*k.x)[r].prob == k.m[r].second, log << ": entry " << r << " of list " << (&k - slots));
            if (!k.m.empty()) PBT_REQ(c, k.x->front().i == k.m[0].first && k.x->back().i == k.m.back().first, log << ": first or last of list " << (&k - slots));
        }
    }
    c.describe([&](auto& o) { o << log; });
}
}

void property(Source& s, Case& c) {
    switch (s.u(13)) {
        case 0: history<Pictures>(s, c, "picture"); break;
        case 1: history<GlyphTables>(s, c, "glyph table"); break;
        case 2: history<GlyphFiles>(s, c, "glyph file"); break;
        case 3: history<FeatureTables>(s, c, "feature table"); break;
        case 4: history<Dictionaries>(s, c, "dictionary"); break;
        case 5: history<Trees>(s, c, "tree"); break;
        case 6: history<LinePositions>(s, c, "line positions"); break;
        case 7: history<LineInfo>(s, c, "line information"); break;
        case 8: history<SameWord>(s, c, "same-word index"); break;
        case 9: history<Ordered>(s, c, "ordered index"); break;
        case 10: history<Rules>(s, c, "rules"); break;
        case 11: history<Scratch>(s, c, "scratch state"); break;
        default: candidates(s, c);
    }
}

}
