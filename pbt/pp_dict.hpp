// Reading a dictionary's contents.
#ifndef VERIF_PP_DICT_HPP
#define VERIF_PP_DICT_HPP

#include "gen_dict.hpp"
#include <cstdint>
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/utils/utf.hpp"

namespace pp {

using Symbols = std::vector<std::uint32_t>;
inline Symbols symbols(std::string const& w) { Symbols r; for (auto& c : gen::chars(w)) r.push_back(ref::packed(c)); return r; }
inline std::string spelled(Symbols const& v) {
    std::string r;
    for (auto c : v) for (int k = 24; k >= 0; k -= 8) if (c >> k & 255) r += char(c >> k & 255);
    return r;
}
struct Peek : ppocr::spell::Dictionary::Manipulator {
    auto const& flat(ppocr::spell::Dictionary const& d) const { return this->trie(d); }
};
/// words below a range of nodes; each level must be strictly ascending
template<class Range> void words_below(Range const& r, Symbols& prefix, std::vector<std::string>& out, unsigned depth = 0) {
    if (depth > 2000) pbt::fail("the tree is too deep");
    bool first = true; std::uint32_t last = 0;
    for (auto const& node : r) {
        if (!first && !(last < node.get())) pbt::fail("the children of a node are not strictly ascending");
        first = false; last = node.get();
        prefix.push_back(node.get());
        if (node.is_terminal()) out.push_back(spelled(prefix));
        if (!node.empty()) words_below(node.childrens(), prefix, out, depth + 1);
        prefix.pop_back();
    }
}
inline std::vector<std::string> words(ppocr::spell::Dictionary const& d) {
    std::vector<std::string> r;
    if (d.empty()) return r;
    Symbols p;
    words_below(Peek().flat(d).childrens(), p, r);
    return r;
}
template<class Tree> bool contains(Tree const& roots, std::string const& w) {
    Symbols const v = symbols(w);
    auto walk = [&](auto self, auto const& level, std::size_t i) -> bool {
        auto it = level.lower_bound(v[i]);
        if (it == level.end() || it->get() != v[i]) return false;
        if (i + 1 == v.size()) return it->is_terminal();
        if (it->empty()) return false;
        // both ways down
        auto const children = &*it->begin();
        if (it->lower_bound(v[i + 1]) - it->begin() != it->childrens().lower_bound(v[i + 1]) - it->childrens().begin() || children != &*it->childrens().begin()) pbt::fail("a node and its children disagree");
        return self(self, it->childrens(), i + 1);
    };
    return !v.empty() && walk(walk, roots, 0);
}
/// words of a saved dictionary, read by an independent parser of its lines "symbol offset children terminal"
inline bool parse_saved(std::string const& s, std::vector<std::string>& out, std::string& why) {
    struct Nd { std::uint64_t c, pos, n; bool t; };
    std::vector<Nd> v;
    std::istringstream i(s);
    std::string line;
    std::size_t bytes = 0;
    while (std::getline(i, line)) {
        bytes += line.size() + 1;
        Nd x{}; unsigned t; int used = -1;
        unsigned long long a, b, n;
        if (std::sscanf(line.c_str(), "%llu %llu %llu %u%n", &a, &b, &n, &t, &used) != 4 || used != int(line.size()) || t > 1) { why = "bad line " + line; return false; }
        x.c = a; x.pos = b; x.n = n; x.t = t;
        v.push_back(x);
    }
    if (bytes != s.size()) { why = "unterminated last line"; return false; }
    if (v.empty()) return true;
    std::vector<int> parent(v.size(), -1);
    std::size_t const roots = std::size_t(v[0].pos);
    if (roots > v.size()) { why = "bad root count"; return false; }
    for (std::size_t k = 0; k < v.size(); ++k) for (std::size_t j = 0; j < v[k].n; ++j) {
        std::size_t const ch = k + std::size_t(v[k].pos) + j;
        if (ch >= v.size() || ch < roots || parent[ch] != -1) { why = "bad child reference"; return false; }
        parent[ch] = int(k);
    }
    for (std::size_t k = roots; k < v.size(); ++k) if (parent[k] == -1) { why = "unreachable node"; return false; }
    for (std::size_t k = 0; k < v.size(); ++k) if (v[k].t) {
        Symbols p;
        for (int j = int(k); j != -1; j = parent[std::size_t(j)]) p.insert(p.begin(), std::uint32_t(v[std::size_t(j)].c));
        out.push_back(spelled(p));
    }
    std::sort(out.begin(), out.end());
    return true;
}
inline std::string list(std::vector<std::string> const& v) { std::string r; for (auto& w : v) r += pbt::quote(w) + " "; return r; }

}
#endif
