// The library's features in the form of the reference model.
#ifndef VERIF_PP_FEATURES_HPP
#define VERIF_PP_FEATURES_HPP

#include "pp.hpp"
#include "ppocr/defined_loader.hpp"

namespace pp {

namespace st = ppocr::strategies;
using Img = ppocr::loader2::PolicyLoader;
template<class S> using N = ppocr::loader2::Strategy<S, Img::img>;
template<class S> using R = ppocr::loader2::Strategy<S, Img::img90>;

inline ref::Zone zone(st::zone::value_type const& z) { ref::Zone r; for (unsigned i = 0; i < 7; ++i) r[i] = z[i]; return r; }
inline std::array<ref::Alt, 7> alts(st::alternations::value_type const& a) {
    std::array<ref::Alt, 7> r;
    for (unsigned i = 0; i < 7; ++i) r[i] = {a[i].start_contains_letter, a[i].count};
    return r;
}
inline st::alternations::value_type alts(std::array<ref::Alt, 7> const& a) {
    st::alternations::value_type r;
    for (unsigned i = 0; i < 7; ++i) r[i] = {a[i].start, a[i].count};
    return r;
}
inline st::zone::value_type zone_value(ref::Zone const& z) { st::zone::value_type r; for (unsigned i = 0; i < 7; ++i) r[i] = z[i]; return r; }

/// value of one strategy with a scratch state of its own
template<class S> auto one(ppocr::Image const& img, ppocr::Image const& img90) {
    typename S::ctx_type ctx;
    ctx.reset();
    return S::load(img, img90, ctx);
}

/// calls f(index, Strategy type tag) for the numeric strategies in reference order
template<class T> struct tag { using type = T; };
template<class F> void each_numeric(F f) {
    f(0u, tag<R<st::dvgravity2>>{}); f(1u, tag<R<st::dvdirection2>>{});
    f(2u, tag<N<st::dzdensity>>{}); f(3u, tag<R<st::dzdensity>>{});
    f(4u, tag<N<st::dvdirection2>>{}); f(5u, tag<N<st::dvgravity2>>{});
    f(6u, tag<N<st::hdirection>>{}); f(7u, tag<R<st::hdirection>>{});
    f(8u, tag<N<st::hdirection2>>{}); f(9u, tag<R<st::hdirection2>>{});
    f(10u, tag<N<st::hgravity>>{}); f(11u, tag<R<st::hgravity>>{});
    f(12u, tag<N<st::hgravity2>>{}); f(13u, tag<R<st::hgravity2>>{});
    f(14u, tag<N<st::proportionality>>{});
    f(15u, tag<N<st::dvdirection>>{}); f(16u, tag<R<st::dvdirection>>{});
    f(17u, tag<N<st::dvgravity>>{}); f(18u, tag<R<st::dvgravity>>{});
    f(19u, tag<N<st::density>>{});
}
/// each feature computed by itself, with fresh scratch state
inline ref::Features separate(ppocr::Image const& img, ppocr::Image const& img90) {
    ref::Features f;
    each_numeric([&](unsigned i, auto t) { f.num[i] = one<typename decltype(t)::type>(img, img90); });
    f.bar = {one<N<st::hbar>>(img, img90), one<R<st::hbar>>(img, img90)};
    f.alt = alts(one<N<st::alternations>>(img, img90));
    f.zones = zone(one<N<st::zone>>(img, img90));
    f.shares = one<N<st::proportionality_zone>>(img, img90);
    return f;
}
/// all features with one shared scratch state, as the recogniser does
template<class Ctx> ref::Features shared(ppocr::Image const& img, ppocr::Image const& img90, Ctx& ctx) {
    ref::Features f;
    each_numeric([&](unsigned i, auto t) { f.num[i] = decltype(t)::type::load(img, img90, ctx); });
    f.bar = {N<st::hbar>::load(img, img90, ctx), R<st::hbar>::load(img, img90, ctx)};
    f.alt = alts(N<st::alternations>::load(img, img90, ctx));
    f.zones = zone(N<st::zone>::load(img, img90, ctx));
    f.shares = N<st::proportionality_zone>::load(img, img90, ctx);
    return f;
}
/// one row of a feature table
inline ref::Features row(ppocr::PpOcrDatas const& d, std::size_t k) {
    ref::Features f;
    each_numeric([&](unsigned i, auto t) { f.num[i] = d.get<typename decltype(t)::type>()[k]; });
    f.bar = {d.get<N<st::hbar>>()[k], d.get<R<st::hbar>>()[k]};
    f.alt = alts(d.get<N<st::alternations>>()[k]);
    f.zones = zone(d.get<N<st::zone>>()[k]);
    f.shares = d.get<N<st::proportionality_zone>>()[k];
    return f;
}
inline void table_sizes(pbt::Case& c, ppocr::PpOcrDatas const& d, std::size_t n) {
    PBT_REQ(c, d.size() == n, "feature table has " << d.size() << " entries instead of " << n);
    each_numeric([&](unsigned i, auto t) { PBT_REQ(c, d.get<typename decltype(t)::type>().size() == n, "feature " << ref::num_name(i) << " has a wrong number of entries"); });
    PBT_REQ(c, d.get<N<st::hbar>>().size() == n && d.get<R<st::hbar>>().size() == n && d.get<N<st::alternations>>().size() == n
        && d.get<N<st::zone>>().size() == n && d.get<N<st::proportionality_zone>>().size() == n, "a structural feature has a wrong number of entries");
}
inline std::string diff(ref::Features const& a, ref::Features const& b) {
    std::ostringstream o;
    for (unsigned i = 0; i < ref::num_count; ++i) if (a.num[i] != b.num[i]) o << ' ' << ref::num_name(i) << ' ' << a.num[i] << " expected " << b.num[i] << ';';
    for (unsigned i = 0; i < 2; ++i) if (a.bar[i] != b.bar[i]) o << " bars" << (i ? "/90 " : " ") << a.bar[i] << " expected " << b.bar[i] << ';';
    for (unsigned i = 0; i < 7; ++i) if (!(a.alt[i] == b.alt[i])) o << " alternation " << i << " = " << a.alt[i] << " expected " << b.alt[i] << ';';
    for (unsigned i = 0; i < 7; ++i) if (a.zones[i] != b.zones[i]) o << " zone " << i << " = " << a.zones[i] << " expected " << b.zones[i] << ';';
    if (a.shares != b.shares) {
        o << " shares";
        for (auto x : a.shares) o << ' ' << x;
        o << " expected";
        for (auto x : b.shares) o << ' ' << x;
    }
    return o.str();
}
inline void same_features(pbt::Case& c, ref::Features const& got, ref::Features const& want, std::string const& what) {
    c.checks += ref::num_count + 2 + 7 + 7 + 1;
    if (!(got == want)) pbt::fail(what + ":" + diff(got, want));
}

}
#endif
