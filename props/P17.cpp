// Recognition indexes are complete and exact.
#include "pp_recog.hpp"

namespace pbt {

PropertyInfo const property_info{"P17",
    "0..40 glyphs (rarely hundreds, or 65530..70000) with shared first words and equal label lists: same-word lists, label groups, ordered index of every numeric feature queried with random and boundary values and tolerances, and the sorting, unique and limiting steps on random scored candidates, all against scans; "
    "non-trivial: at least three glyphs", no_setup};

namespace {
using ppocr::ocr2::Probability;
using ppocr::ocr2::Probabilities;
struct L { unsigned i; double p; };
std::vector<L> list(Probabilities const& p) { std::vector<L> r; for (auto& x : p) r.push_back({x.i, x.prob}); return r; }
std::map<std::pair<unsigned, double>, unsigned> bag(std::vector<L> const& v) { std::map<std::pair<unsigned, double>, unsigned> m; for (auto& x : v) ++m[{x.i, x.p}]; return m; }
}

void property(Source& s, Case& c) {
    std::vector<ref::Pic> bases;
    auto g = pp::learned_set(s, bases, true);
    if (s.chance(1, 30)) g.clear();
    if (s.chance(1, 400)) g = gen::many_glyphs(s, gen::huge(s, 300), 3);
    if (s.chance(1, 1500)) { // few words for all of them
        g = gen::many_glyphs(s, gen::huge(s, 2100), 2);
        gen::Bulk b(s);
        unsigned const words = unsigned(s.range(1, 3));
        for (auto& x : g) for (auto& l : x.labels) l.word = "v" + std::to_string(b.u(words) ? 0 : b.u(words));
    }
    std::vector<ref::Features> f;
    for (auto& x : g) f.push_back(ref::features(x.pic));
    if (s.flip()) for (auto& x : f) for (unsigned k = 0; k < ref::num_count; ++k) if (s.flip()) x.num[k] = unsigned(s.u(ref::num_range(k) + 1));
    c.mix(ref::glyph_file(g)); c.mix(ref::feature_table(f));
    c.describe([&](auto& o) { o << gen::describe(g) << '\n' << ref::feature_table(f); });
    c.nontrivial = g.size() > 2;
    pp::World w(g, f, true);
    unsigned const n = unsigned(g.size());

    // same-word lists
    std::map<std::string, std::vector<unsigned>> same;
    for (unsigned i = 0; i < n; ++i) same[w.words[i][0]].push_back(i);
    for (unsigned i = 0; i < n; ++i) {
        std::vector<unsigned> want;
        for (unsigned j : same[w.words[i][0]]) if (j != i) want.push_back(j);
        std::vector<unsigned> got = (*w.by_words)[i];
        std::sort(got.begin(), got.end());
        PBT_REQ(c, got == want, "same-word list of glyph " << i << " has " << got.size() << " entries instead of " << want.size() << " or wrong ones");
    }
    // label groups
    PBT_REQ(c, w.id_views.size() == n, "label grouping has a wrong size");
    std::map<std::vector<std::string>, unsigned> group_first;
    std::map<unsigned, unsigned> id_first;
    for (unsigned i = 0; i < n; ++i) {
        unsigned const j = group_first.emplace(w.words[i], i).first->second, k = id_first.emplace(w.id_views[i], i).first->second;
        PBT_REQ(c, w.id_views[i] == w.id_views[j], "glyphs " << j << " and " << i << " with equal label words have groups " << w.id_views[j] << " and " << w.id_views[i]);
        PBT_REQ(c, w.words[i] == w.words[k], "glyphs " << k << " and " << i << " with different label words share group " << w.id_views[i]);
    }
    // ordered index
    pp::each_numeric([&](unsigned k, auto t) {
        using S = typename decltype(t)::type;
        ppocr::ocr2::DataIndexesOrdered<S> const idx(w.datas);
        for (unsigned q = 0; q < 3; ++q) {
            unsigned const range = ref::num_range(k);
            unsigned x = unsigned(s.u(range + 1)), d = unsigned(s.pick(std::vector<unsigned>{range / 10, 0u, 1u, 2u, 5u, range, range / 2}));
            if (n && s.flip()) { unsigned const v = f[s.u(n)].num[k]; x = s.flip() ? v : s.flip() ? (v + d > range ? range : v + d) : (v < d ? 0 : v - d); }
            std::vector<unsigned> got, want;
            for (unsigned i : idx.get_range(w.datas, x, d)) got.push_back(i);
            for (unsigned i = 0; i < n; ++i) if (ref::absdiff(f[i].num[k], x) <= d) want.push_back(i);
            std::sort(got.begin(), got.end());
            PBT_REQ(c, got == want, ref::num_name(k) << ": value " << x << " tolerance " << d << " gives " << got.size() << " glyphs instead of " << want.size() << " or wrong ones");
        }
    });
    // scored candidates
    if (!n) return;
    Probabilities p(n), out(n);
    std::vector<L> cand;
    for (unsigned i = 0; i < n; ++i) if (s.chance(3, 4)) cand.push_back({i, double(s.u(11)) / 10});
    for (std::size_t i = cand.size(); i > 1; --i) std::swap(cand[i - 1], cand[s.u(i)]);
    for (auto& x : cand) p.emplace_back(x.i, x.p);
    std::map<std::vector<std::string>, double> best;
    auto const cand_bag = bag(cand);
    for (auto& x : cand) { auto it = best.emplace(w.words[x.i], x.p).first; it->second = std::max(it->second, x.p); }
    auto group_check = [&](std::vector<L> const& v, char const* what) {
        std::set<std::vector<std::string>> seen;
        for (auto& x : v) {
            PBT_REQ(c, seen.insert(w.words[x.i]).second, what << ": two candidates of one group are kept");
            PBT_REQ(c, x.p == best[w.words[x.i]], what << ": the candidate kept is not the best of its group");
            PBT_REQ(c, cand_bag.count({x.i, x.p}), what << ": a candidate was altered");
        }
        PBT_REQ(c, seen.size() == best.size(), what << ": a group is lost");
    };
    ppocr::ocr2::sort_by_views(p, w.id_views);
    PBT_REQ(c, bag(list(p)) == cand_bag, "sorting by group changes the candidates");
    ppocr::ocr2::unique_copy_by_views(out, p, w.id_views);
    PBT_REQ(c, bag(list(p)) == cand_bag, "copying changes the source");
    group_check(list(out), "unique copy");
    ppocr::ocr2::unique_by_views(p, w.id_views);
    group_check(list(p), "unique");
    auto const before = list(p);
    ppocr::ocr2::sort_by_prop(p);
    auto const after = list(p);
    PBT_REQ(c, bag(before) == bag(after), "sorting by score changes the candidates");
    for (std::size_t i = 1; i < after.size(); ++i) PBT_REQ(c, after[i - 1].p >= after[i].p, "candidates are not in descending score");
    double const limit = double(s.u(11)) / 10;
    ppocr::ocr2::view_ref_list l;
    if (s.flip()) l.insert(l.end(), w.glyphs[0].begin(), w.glyphs[0].end());
    std::size_t k = l.size();
    ppocr::ocr2::insert_views(l, p, w.glyphs, limit);
    for (auto& x : after) if (x.p >= limit) for (auto& v : w.glyphs[x.i]) { PBT_REQ(c, k < l.size() && &l[k].get() == &v, "labels above the limit are not all inserted in order"); ++k; }
    PBT_REQ(c, k == l.size(), "labels below the limit are inserted");
}

}
