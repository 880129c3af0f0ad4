// Dictionaries of real size: the shipped French word list, large samples of it, and very wide ones.
#include "pp_dict.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include <algorithm>
#include <memory>

namespace pbt {

void read_list();

PropertyInfo const property_info{"P36",
    "the dictionary of the shipped French list (336531 words), built by the tool and in memory (once per process): its saved nodes read by an independent parser, reloaded, saved again; 30 membership probes per case (words, prefixes, extensions, one character changed) and searches over 1..25 positions cut from its words with confusable candidates against exhaustive backtracking; "
    "now and then samples of 2000..40000 words of it in any order, or up to 70000 words that differ in one character, and once per process 300000 words of five or six characters; non-trivial: a probe is a near miss or a search has a position with several candidates", read_list};

namespace {
std::string root() { char const* r = getenv("PBT_REPO"); return r ? r : "/repo"; }
struct French {
    std::set<std::string> set;
    std::vector<std::string> words;
    std::unique_ptr<ppocr::spell::Dictionary> d;
    std::string text;
    French() {
        text = read_file(root() + "/resources/dict_fr.txt");
        std::istringstream i(text);
        std::string l;
        while (std::getline(i, l)) if (!l.empty()) set.insert(l);
        words.assign(set.begin(), set.end());
    }
};
French& french() { static French f; return f; }

void whole(Case& c, std::vector<std::string> const& given, std::vector<std::string> const& want, ppocr::spell::Dictionary& d, std::string const& what) {
    d = ppocr::spell::Dictionary(given);
    std::ostringstream o;
    o << d;
    std::string const saved = o.str();
    std::vector<std::string> parsed;
    std::string why;
    bool const ok = pp::parse_saved(saved, parsed, why);
    PBT_REQ(c, ok, what << ": saved form: " << why);
    PBT_REQ(c, parsed == want, what << ": the saved form holds " << parsed.size() << " words, not the " << want.size() << " of the list");
    ppocr::spell::Dictionary back;
    std::istringstream i(saved);
    i >> back;
    PBT_REQ(c, i.eof() && !i.bad(), what << ": loading stopped before the end");
    std::ostringstream q;
    q << back;
    PBT_REQ(c, q.str() == saved, what << ": saving the loaded dictionary gives other bytes");
    auto got = pp::words(back);
    std::sort(got.begin(), got.end());
    PBT_REQ(c, got == want, what << ": the loaded dictionary holds " << got.size() << " words, not the " << want.size() << " of the list");
    d = back;
}
void load(Case& c) {
    auto& f = french();
    PBT_REQ(c, f.words.size() > 300000, "the shipped word list has only " << f.words.size() << " words");
    f.d.reset(new ppocr::spell::Dictionary);
    whole(c, std::vector<std::string>(f.words.rbegin(), f.words.rend()), f.words, *f.d, "the shipped word list");
    std::ostringstream o;
    o << *f.d;
    auto const r = run_tool("make_trie_dictionary", {root() + "/resources/dict_fr.txt"});
    PBT_REQ(c, r.status == 0, "make_trie_dictionary: status " << r.status << ' ' << r.err.substr(0, 1000));
    PBT_REQ(c, r.out == o.str(), "make_trie_dictionary prints another dictionary for the shipped word list");
}
std::string near(Source& s, std::vector<std::string> const& words, unsigned how) {
    std::string const w = s.pick(words);
    auto ch = gen::chars(w);
    switch (how) {
        case 0: return w;
        case 1: return w + (s.flip() ? "s" : gen::chars(s.pick(words))[0]);
        case 2: ch.resize(std::size_t(s.range(1, ch.size()))); break;
        case 3: { auto o = gen::chars(s.pick(words)); ch[s.u(ch.size())] = o[s.u(o.size())]; break; }
        default: { auto o = gen::chars(s.pick(words)); std::size_t const a = s.u(ch.size()); ch.resize(a + 1); ch.insert(ch.end(), o.begin() + long(s.u(o.size())), o.end()); }
    }
    std::string r;
    for (auto& x : ch) r += x;
    return r;
}
}

void read_list() { french(); }

void property(Source& s, Case& c) {
    auto& f = french();
    static std::string broken;
    static bool tried = false;
    if (!tried) { tried = true; try { load(c); } catch (Failure const& e) { broken = e.what(); } }
    if (!broken.empty()) fail(broken);

    static bool far = false;
    bool const wants_far = s.chance(1, 400);
    if (wants_far && !far) { // children a long way behind their parent, once per process
        far = true;
        unsigned const n = unsigned(s.range(270000, 300000));
        std::vector<std::string> v;
        for (unsigned k = 0; k < n; ++k) { std::string w(4, 'a'); unsigned x = k; for (unsigned j = 3; j < 4; --j) { w[j] = char('A' + x % 25); x /= 25; } v.push_back(w + (k % 3 ? "z" : "zz")); }
        c.describe([&](auto& o) { o << "dictionary of " << n << " words with " << n << " nodes in its fourth row"; });
        c.mix(n);
        ppocr::spell::Dictionary d;
        whole(c, v, v, d, "a dictionary with " + std::to_string(n) + " nodes in one row");
        c.nontrivial = true;
        c.label("far children");
        return;
    }
    if (s.chance(1, 300)) {
        ppocr::spell::Dictionary d;
        std::set<std::string> set;
        std::vector<std::string> v;
        bool const wide = s.chance(1, 3);
        std::uint64_t const seed = s.bits32();
        Source b(seed, 7, 2);
        if (wide) {
            static unsigned const sizes[] = {250, 300, 2000, 65530, 70000};
            std::string const stem(std::size_t(s.u(3)), 'q');
            if (s.flip()) v.push_back("qz");
            for (unsigned n = sizes[s.u(5)] + unsigned(s.u(20)), k = 0; k < n; ++k) {
                std::uint32_t cp = 0x3400 + k * 11;
                if (cp >= 0xD800 && cp < 0xE000) continue;
                v.push_back(stem + ref::utf8(cp) + (b.u(8) ? "" : "x"));
                if (!b.u(9)) v.push_back(stem + ref::utf8(cp) + "yz");
            }
        }
        else for (unsigned n = unsigned(s.range(2000, 40000)); n; --n) v.push_back(b.pick(f.words));
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[b.u(i)]);
        set.insert(v.begin(), v.end());
        std::vector<std::string> const want(set.begin(), set.end());
        c.describe([&](auto& o) { o << (wide ? "wide dictionary of " : "sample of the list, ") << want.size() << " words, seed " << seed; });
        c.mix(seed); c.mix(want.size());
        whole(c, v, want, d, "a dictionary of " + std::to_string(want.size()) + " words");
        for (unsigned k = 200; k; --k) {
            std::string const p = near(b, want, unsigned(b.u(5)));
            bool const in = set.count(p) != 0;
            PBT_REQ(c, pp::contains(pp::Peek().flat(d).childrens(), p) == in, "membership of " << quote(p) << " should be " << in);
        }
        c.nontrivial = true;
        c.label(wide ? "wide" : "sample");
        return;
    }
    std::vector<std::string> probes;
    for (unsigned k = 30; k; --k) {
        std::string const p = near(s, f.words, unsigned(s.u(5)));
        bool const in = f.set.count(p) != 0;
        probes.push_back(p);
        c.mix(p);
        if (!in) c.nontrivial = true;
        PBT_REQ(c, pp::contains(pp::Peek().flat(*f.d).childrens(), p) == in, "membership of " << quote(p) << " should be " << in);
    }
    // a word as the recogniser would give it
    std::vector<std::vector<std::string>> pos;
    for (auto& x : gen::chars(near(s, f.words, s.chance(4, 5) ? 0 : unsigned(s.u(5))))) {
        static std::vector<std::vector<std::string>> const alike = {{"l", "i", "1", "I", "!"}, {"o", "0", "O", "\xc3\xb4"}, {"e", "\xc3\xa9", "\xc3\xa8", "c", "\xc3\xaa"}, {"rn", "m", "nn"}, {"a", "\xc3\xa0", "\xc3\xa2", "o"}, {"u", "n", "\xc3\xb9", "v"}, {"s", "5", "S"}, {"b", "h", "6"}, {"g", "q", "9", "y"}, {"t", "f", "r"}};
        std::vector<std::string> l{x};
        if (s.chance(2, 5)) {
            bool found = false;
            for (auto& a : alike) if (!found && std::find(a.begin(), a.end(), x) != a.end()) { found = true; for (auto& y : a) if (y != x && s.chance(2, 3)) l.insert(l.begin() + long(s.u(l.size() + 1)), y); }
            if (!found) l.insert(l.begin() + long(s.u(2)), gen::chars(s.pick(f.words))[0]);
        }
        if (l.size() > 1) c.nontrivial = true;
        // two glyphs may stand for one box
        if (!pos.empty() && pos.back().size() == 1 && l.size() == 1 && s.chance(1, 10)) pos.back()[0] += x;
        else pos.push_back(l);
    }
    c.describe([&](auto& o) { o << "probes " << pp::list(std::vector<std::string>(probes.begin(), probes.begin() + 4)) << "... positions"; for (auto& l : pos) o << " [" << pp::list(l) << "]"; });
    for (auto& l : pos) for (auto& w : l) c.mix(w);
    auto const want = ref::spell(f.set, pos);
    std::string out = "=";
    bool const got = ppocr::spell::WordDisambiguouser()(*f.d, pos.cbegin(), pos.cend(), out);
    PBT_REQ(c, got == bool(want) && out == "=" + (want ? *want : ""), "the search gives " << quote(out) << " instead of " << quote("=" + (want ? *want : "")));
    c.label(want ? "spells a word" : "no word");
}

}
