// Feature similarity is bounded, exact and consistent with the tolerance tests.
#include "pp_features.hpp"

namespace pbt {

PropertyInfo const property_info{"P09",
    "two feature values (any two values of the range, or the features of two random, related or equal pictures) and a tolerance; non-trivial: the two values differ in at least one feature", no_setup};

namespace {
template<class S> double dist(typename S::value_type const& a, typename S::value_type const& b) { return S::relationship_type::dist(a, b); }
void is_percent(Case& c, double d, unsigned pct, std::string const& what) {
    PBT_REQ(c, d >= 0 && d <= 1 && std::abs(d - pct / 100.) < 1e-12, what << ": similarity " << d << ", expected " << pct << "%");
}
}

void property(Source& s, Case& c) {
    using namespace pp;
    ref::Features a, b;
    bool const from_pics = s.flip();
    if (from_pics) {
        ref::Pic const p = gen::glyph_pic(s, 30, 30);
        ref::Pic const q = s.chance(1, 3) ? gen::glyph_pic(s, 30, 30) : gen::mutate(s, p);
        a = ref::features(p); b = ref::features(q);
    }
    else {
        for (unsigned i = 0; i < ref::num_count; ++i) {
            unsigned const r = ref::num_range(i);
            a.num[i] = unsigned(s.range(0, r));
            b.num[i] = s.flip() ? unsigned(s.range(0, r)) : unsigned(std::min<ref::i64>(r, std::max<ref::i64>(0, ref::i64(a.num[i]) + s.irange(-int(r / 10) - 2, int(r / 10) + 2))));
        }
        a.bar = {unsigned(s.small(0, 30)), unsigned(s.small(0, 30))}; b.bar = {unsigned(s.small(0, 30)), a.bar[1]};
        for (unsigned i = 0; i < 7; ++i) {
            a.alt[i] = {s.flip(), unsigned(s.small(0, 20))};
            b.alt[i] = s.flip() ? a.alt[i] : ref::Alt{s.flip(), unsigned(s.small(0, 20))};
            a.zones[i] = unsigned(s.small(0, 20));
            b.zones[i] = s.flip() ? a.zones[i] : unsigned(s.small(0, 20));
        }
        auto shares = [&](std::size_t n) {
            std::vector<unsigned> v;
            unsigned left = 100;
            for (std::size_t i = 0; i < n; ++i) { v.push_back(i + 1 == n ? left : unsigned(s.u(left + 1))); left -= v.back(); }
            std::sort(v.begin(), v.end());
            return v;
        };
        std::size_t const n = s.small(0, 8);
        a.shares = shares(n);
        b.shares = s.chance(1, 4) ? shares(s.small(0, 8)) : shares(n);
        if (s.chance(1, 400)) { // more parts than their similarities' sum fits 16 bits
            std::size_t const m = std::size_t(s.range(300, 1400));
            a.shares.assign(m, 0); b.shares = a.shares;
            for (unsigned k = unsigned(s.u(8)); k; --k) ++a.shares[m - k], ++b.shares[m - 1 - s.u(10)];
        }
        else if (s.chance(1, 12)) { a.shares.assign(120, 0); b.shares = a.shares; b.shares.back() = 1; }
    }
    c.mix(ref::feature_table({a, b}));
    c.nontrivial = !(a == b);
    c.label(from_pics ? "from pictures" : "any values");
    c.describe([&](auto& o) { o << quote(ref::feature_table({a, b}), 500); });

    each_numeric([&](unsigned i, auto t) {
        using S = typename decltype(t)::type;
        using Rel = typename S::relationship_type;
        unsigned const r = ref::num_range(i), x = a.num[i], y = b.num[i];
        std::string const what = std::string(ref::num_name(i)) + " " + std::to_string(x) + " and " + std::to_string(y);
        is_percent(c, dist<S>(x, y), ref::sim_num(x, y, r), what);
        is_percent(c, dist<S>(y, x), ref::sim_num(x, y, r), what + " swapped");
        is_percent(c, dist<S>(x, x), 100, what + " itself");
        unsigned const z = unsigned(s.range(0, r));
        if (ref::absdiff(x, z) >= ref::absdiff(x, y)) PBT_REQ(c, dist<S>(x, z) <= dist<S>(x, y), what << ": " << z << " is further away but more similar");
        for (unsigned d : {r / 10, unsigned(s.range(0, r)), ref::absdiff(x, y), ref::absdiff(x, y) ? ref::absdiff(x, y) - 1 : 0u}) {
            PBT_REQ(c, Rel::in_dist(x, y, d) == (ref::absdiff(x, y) > d), what << " with tolerance " << d << ": flagged " << Rel::in_dist(x, y, d));
        }
        PBT_REQ(c, Rel::count() == r + 1, what << ": number of values");
        // through a table
        ppocr::loader2::Data<S> data(typename ppocr::loader2::Data<S>::container_type{x, y});
        is_percent(c, data.dist_with(0, y), ref::sim_num(x, y, r), what + " in a table");
        PBT_REQ(c, data.in_dist_with(1, x, r / 10) == (ref::absdiff(x, y) > r / 10), what << " in a table: tolerance");
    });
    for (unsigned i = 0; i < 2; ++i) {
        using Rel = st::hbar::relationship_type;
        is_percent(c, Rel::dist(a.bar[i], b.bar[i]), a.bar[i] == b.bar[i] ? 100 : 0, "bars");
        PBT_REQ(c, Rel::in_dist(a.bar[i], b.bar[i], unsigned(s.range(0, 100))) == (a.bar[i] == b.bar[i]), "bars: tolerance");
    }
    {
        using Rel = st::alternations::relationship_type;
        auto const x = alts(a.alt), y = alts(b.alt);
        unsigned const sim = ref::sim_array(a.alt, b.alt);
        is_percent(c, Rel::dist(x, y), sim, "alternations");
        is_percent(c, Rel::dist(y, x), sim, "alternations swapped");
        is_percent(c, Rel::dist(x, x), 100, "alternations itself");
        for (unsigned d : {50u, sim, sim + 1, unsigned(s.range(0, 100))}) PBT_REQ(c, Rel::in_dist(x, y, d) == (sim >= d), "alternations " << sim << "% asked " << d);
    }
    {
        using Rel = st::zone::relationship_type;
        auto const x = zone_value(a.zones), y = zone_value(b.zones);
        unsigned const sim = ref::sim_array(a.zones, b.zones);
        is_percent(c, Rel::dist(x, y), sim, "zones");
        is_percent(c, Rel::dist(y, x), sim, "zones swapped");
        is_percent(c, Rel::dist(x, x), 100, "zones itself");
        for (unsigned d : {Rel::count() / 2, sim, sim + 1, unsigned(s.range(0, 100))}) PBT_REQ(c, Rel::in_dist(x, y, d) == (sim >= d), "zones " << sim << "% asked " << d);
        PBT_REQ(c, Rel::count() / 2 == 50, "zones: half");
    }
    {
        using Rel = st::proportionality_zone::relationship_type;
        auto const &x = a.shares, &y = b.shares;
        unsigned const sim = ref::sim_shares(x, y);
        is_percent(c, Rel::dist(x, y), sim, "zone shares");
        is_percent(c, Rel::dist(x, x), 100, "zone shares itself");
        is_percent(c, Rel::dist(y, y), 100, "zone shares itself");
        for (unsigned d : {Rel::count() / 2, sim, sim + 1, unsigned(s.range(0, 100))}) PBT_REQ(c, Rel::in_dist(x, y, d) == (sim >= d), "zone shares " << sim << "% asked " << d);
        PBT_REQ(c, Rel::count() / 2 == 50, "zone shares: half");
        if (x.size() != y.size()) c.label("different zone count");
    }
}

}
