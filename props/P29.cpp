// The dictionary tool stores the words of all the files it is given.
#include "pp_dict.hpp"

#include <sys/stat.h>
#include <unistd.h>

namespace pbt {

PropertyInfo const property_info{"P29",
    "0..60 words (duplicates, prefixes, words with blanks, tabs, carriage returns or signs before, inside or behind, blank lines, now and then a word of up to 5000 characters) split over 1..5 (now and then up to 60) files, some empty, some missing or directories, with and without a final newline; the tool's output parsed independently, and again with files and lines in another order; "
    "non-trivial: at least two words in at least two files", no_setup};

void property(Source& s, Case& c) {
    auto v = gen::word_list(s, 60, true);
    for (auto& w : v) if (!w.empty() && s.chance(1, 12)) w += " " + gen::text_word(s, 2);
    static char const* const odd[] = {" ", "  ", "\t", "\r", "#", "0", "\\", "\"", "'", "-", "\xc2\xa0", "\xef\xbb\xbf"};
    for (auto& w : v) if (s.chance(1, 12)) { std::string const x = odd[s.u(sizeof odd / sizeof *odd)]; w = s.flip() ? x + w : w + x; } // every byte of a line counts
    if (!v.empty() && s.chance(1, 150)) { // a long word
        auto& w = s.pick_mut(v);
        gen::Bulk b(s);
        for (unsigned k = gen::huge(s, 5000); k; --k) w += b.u(9) ? std::string(1, char('a' + b.u(3))) : std::string("\xd0\xbf");
        c.label("long word");
    }
    unsigned const n = unsigned(s.chance(1, 40) ? s.range(6, 60) : s.range(1, 5));
    auto write = [&](std::vector<std::string> words, std::vector<std::string>& names, std::set<std::string>* kept) {
        names.clear();
        std::vector<std::string> text(n);
        std::vector<bool> has(n);
        for (auto& w : words) { unsigned const k = unsigned(s.u(n)); text[k] += w + "\n"; has[k] = true; }
        for (unsigned k = 0; k < n; ++k) {
            if (!text[k].empty() && s.flip()) text[k].pop_back();
            names.push_back(scratch_dir() + "/w" + std::to_string(k));
            write_file(names.back(), text[k]);
        }
        for (auto& w : words) if (!w.empty() && kept) kept->insert(w);
        for (unsigned k = unsigned(s.small(0, 2)); k; --k) {
            std::string const path = scratch_dir() + "/missing" + std::to_string(k);
            rmdir(path.c_str());
            if (s.chance(1, 4)) { mkdir(path.c_str(), 0700); c.label("directory"); } // opens, but cannot be read
            else c.label("missing file");
            names.insert(names.begin() + long(s.u(names.size() + 1)), path);
        }
        c.mix(words.size()); for (auto& t : text) c.mix(t);
    };
    std::set<std::string> set;
    std::vector<std::string> names;
    write(v, names, &set);
    std::vector<std::string> const want(set.begin(), set.end());
    c.describe([&](auto& o) { o << pp::list(v) << " in " << n << " files"; });
    c.nontrivial = want.size() > 1 && n > 1;
    std::string first;
    for (unsigned round = 0; round < 2; ++round) {
        if (round) {
            for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.u(i)]);
            write(v, names, nullptr);
        }
        bool missing = false;
        for (auto& x : names) missing = missing || x.find("/missing") != std::string::npos;
        auto const r = run_tool("make_trie_dictionary", names);
        PBT_REQ(c, !r.signaled && (missing || r.status == 0) && r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "status " << r.status << " " << r.err.substr(0, 2000));
        PBT_REQ(c, !missing || r.err.find("/missing") != std::string::npos, "an unreadable file is not reported");
        std::vector<std::string> got;
        std::string why;
        bool const ok = pp::parse_saved(r.out, got, why);
        PBT_REQ(c, ok, "output " << quote(r.out) << ": " << why);
        PBT_REQ(c, got == want, "round " << round << ": the dictionary holds " << pp::list(got) << " instead of " << pp::list(want));
        if (round == 0) first = r.out;
        else PBT_REQ(c, r.out == first, "another order of files and lines gives another output");
    }
    c.label(want.empty() ? "no word" : n > 1 ? "several files" : "one file");
}

}
