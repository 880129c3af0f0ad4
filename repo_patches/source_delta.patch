From a1c48a33f4266a5d515b114091a005dc02f79366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 01/40] fix: image_from_file: accept PBM files shorter than 9
 bytes

A binary picture of up to 8 columns and one row is 8 bytes long
("P4\n1 1\n" and one byte of pixels) and was refused as badly formed.
---
 src/ppocr/image/image_from_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..7d30e1a 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -125,7 +125,8 @@ namespace
             // ['0'-'9']+ '\n'                  # max value (when type != 1 or 4)
             // data
 
-            if (end - p < 9) {
+            // magic and new line
+            if (end - p < 3) {
                 return false;
             }
 
-- 
2.43.0


From 640ad76c367859617fdbff3542e9aaddd9e113ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 02/40] fix: image_from_file: compute the length of P4 data
 without overflow

The row size wrapped around for widths close to 2^32, so that a file
without pixels was accepted and read past its end.
---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 7d30e1a..a95f873 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -240,7 +240,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (static_cast<std::size_t>(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 5a11a31413e176b5cd7a6940982806f63cba34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 03/40] fix: image_from_file: read ASCII pictures to their last
 pixel

The last pixel was left unread and then taken for trailing data, so every
correct P1 or P3 file was refused; files with too few pixels were accepted
with uninitialised pixels.
---
 src/ppocr/image/image_from_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index a95f873..0cd94c9 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -267,12 +267,14 @@ Image image_from_file(const char * filename, unsigned luminance)
             else if (*p == '0') {
                 *output++ = '-';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
             else if (*p == '1') {
                 *output++ = 'x';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
@@ -288,7 +290,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0


From 8e77d12385dcf272253e1727be1d3e50b003df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 04/40] fix: make_box_character: keep the last column of the
 picture

Ink in the last column was never part of a box: a character touching the
right edge lost its last column, or was missed when it is one column wide.
---
 src/ppocr/box_char/make_box_character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index a61c3e2..c30e2bb 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -57,9 +57,9 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned w = x;
 
-    while (w + 1 < bnd.width()) {
+    while (w < bnd.width()) {
         ++w;
-        if ([&image](Pixel const * d, unsigned w, unsigned h) -> bool {
+        if (w == bnd.width() || [&image](Pixel const * d, unsigned w, unsigned h) -> bool {
             for (auto e = d+w*h; d != e; d += w) {
                 if (is_pix_letter(*d) && (
                     (d+1 != e && is_pix_letter(*(d+1)))
-- 
2.43.0


From 049a15166b3f80bd438d3b807df03aa229761708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 05/40] fix: proportionality_zone: compare two zones of 0%

Zones smaller than one percent are stored as 0; comparing two of them
divided by zero. They are equal, as any other two equal shares.
---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..f8b22ab 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return (a || b) ? a*100/(a+b) : 50; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From 407ed873474ae29052e1b67a0b20efb9e3bfc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 06/40] fix: ocr2::Glyphs: make room for the terminating zero
 of words

The zero of a word of 4, 8, 12... bytes was written over the size of the
next word, which then removed it, or past the end of the table. Such words
were not terminated when read as C strings.
---
 src/ppocr/ocr2/glyphs.cpp | 5 +++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..cc66c14 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,8 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            // size, word and terminating zero
+            buf_word_sz += p.first.size() / sizeof(unsigned) + 2;
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +85,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += p.first.size() / sizeof(unsigned) + 1;
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..295cf3a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,7 +74,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From 21b9bd4f16e651b706bccfb7f859fa2d9a53b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 07/40] fix: get_views_indexes_ordered: give each glyph its own
 group

---
 src/ppocr/ocr2/views_index_ordered.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/ocr2/views_index_ordered.hpp b/src/ppocr/ocr2/views_index_ordered.hpp
index 61028a0..27f3452 100644
--- a/src/ppocr/ocr2/views_index_ordered.hpp
+++ b/src/ppocr/ocr2/views_index_ordered.hpp
@@ -32,20 +32,18 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
         std::vector<std::reference_wrapper<Views const>> glyph_refs(glyphs.begin(), glyphs.end());
         std::sort(glyph_refs.begin(), glyph_refs.end(), LtViews{});
 
-        auto first = glyph_refs.begin() + 1;
-        auto last = glyph_refs.end();
-        // re-assign duplication
-        for (; first != last; ++first) {
-            if (EqViews{}(first->get(), (first-1)->get())) {
-                *first = *(first-1);
-            }
-        }
+        auto index_of = [&](Views const & g) {
+            return static_cast<std::size_t>(&g - &glyphs[0]);
+        };
 
         id_views.resize(glyphs.size());
-        auto it = id_views.begin();
-        for (Views const & g : glyph_refs) {
-            *it = static_cast<unsigned>(&g - &glyphs[0]);
-            ++it;
+        auto representative = glyph_refs.begin();
+        for (auto it = glyph_refs.begin(); it != glyph_refs.end(); ++it) {
+            // same id for the duplications
+            if (!EqViews{}(it->get(), representative->get())) {
+                representative = it;
+            }
+            id_views[index_of(*it)] = static_cast<unsigned>(index_of(*representative));
         }
     }
     return id_views;
-- 
2.43.0


From da4b8bb99184583de2b6ccc0f4a9c3c1dd6e365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 08/40] fix: Glyphs::word_index_of: compare whole words

---
 src/ppocr/ocr2/glyphs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 295cf3a..9a30e61 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -67,7 +67,8 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto const & word = this->get_word_(i);
+            auto r = s.compare(std::string_view(word.data(), word.size()));
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From ce95b137969d8df868aaed49483877db5de5e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 09/40] fix: filter_by_lines: take the first box into account
 in the extent of the line

---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..7a24bd0 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(first->top())
         , min_bottom(first->bottom())
+        , max_bottom(first->bottom())
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From 669af87b8f333f26dc48da39f4f267583d261b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 10/40] fix: filter_by_lines: test and count every word that
 follows a kept one

---
 src/ppocr/ocr2/filter_by_lines.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 7a24bd0..9dec663 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -50,10 +50,11 @@ namespace {
             auto out = vec.begin();
             auto last = vec.end();
             if (!pred(*(first-1))) {
-                do {
+                ++count;
+                while (first != last && !pred(*first)) {
                     first = std::find_if(first+1, last, view_equal_to(first->get().word));
                     ++count;
-                } while (first != last && !pred(*first));
+                }
                 out = first;
             }
             while (first != last) {
-- 
2.43.0


From a32d8dfecd0c5df97e5958f35342c79d6c83d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 11/40] fix: Dictionary: skip empty words

---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From 1e1f11b62d6d06f89230019757e4cf9aceffbedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 12/40] fix: WordDisambiguouser: spell all characters of the
 last candidate

---
 src/ppocr/spell/word_disambiguouser.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 28508ac..c592076 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -59,6 +59,13 @@ private:
         auto const c = *it;
         auto pos = rng.lower_bound(c);
         if (pos != rng.end() && pos->get() == c) {
+            if (*++it) {
+                if (!pos->empty() && disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
+                    set_c(output, c);
+                    return true;
+                }
+                return false;
+            }
             auto next_first = first;
             ++next_first;
             if (next_first == last) {
@@ -67,17 +74,9 @@ private:
                     return true;
                 }
             }
-            else if (!pos->empty()) {
-                if (*++it) {
-                    if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                        set_c(output, c);
-                        return true;
-                    }
-                }
-                else if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
-                    set_c(output, c);
-                    return true;
-                }
+            else if (!pos->empty() && disambiguous_impl(pos->childrens(), next_first, last, output)) {
+                set_c(output, c);
+                return true;
             }
         }
         return false;
-- 
2.43.0


From 64dda5fdb396789ca757bbad7da736a9004e5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 13/40] fix: disambiguous_with_dict: treat the beginning of the
 line like the rest

---
 src/ppocr/ocr2/disambiguous_with_dict.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/ocr2/disambiguous_with_dict.cpp b/src/ppocr/ocr2/disambiguous_with_dict.cpp
index 060a437..a5b6296 100644
--- a/src/ppocr/ocr2/disambiguous_with_dict.cpp
+++ b/src/ppocr/ocr2/disambiguous_with_dict.cpp
@@ -168,11 +168,8 @@ unsigned ppocr::ocr2::disambiguous_with_dict(
 
     auto first = ambiguous.begin();
     auto last = ambiguous.end();
-    auto middle = std::find_if_not(first, first + *it_space, search_fn);
-    for (; first != middle; ++first) {
-        append(result, glyphs, *first);
-    }
-    if (first == ambiguous.begin() + *it_space) {
+    // space before the first glyph
+    if (*it_space == 0) {
         ++it_space;
     }
     while (first != last) {
-- 
2.43.0


From 4590160c934836805c3f53f965a899ba5c3da123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 14/40] fix: Replacements: no replacement for a last line
 without one

---
 src/ppocr/ocr2/replacement.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..2156968 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -24,15 +24,13 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacemen
     using char_traits = std::char_traits<char>;
     Replacement rep;
     while (is) {
+        rep.replace.clear();
         is >> rep.pattern;
         auto c = is.rdbuf()->sgetc();
         if (!char_traits::eq_int_type(c, char_traits::eof())) {
             if (!char_traits::eq(char_traits::to_char_type(c), '\n')) {
                 is >> rep.replace;
             }
-            else {
-                rep.replace.clear();
-            }
         }
         if (is) {
             replacements.push_back(rep);
-- 
2.43.0


From b8cd40a06ae7ceb76eeae13ece529681fcb53efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 15/40] fix: replace_words: continue behind the replacement

---
 src/ppocr/ocr2/replacement.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..b7ece77 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -41,6 +41,7 @@ inline void replace_words(std::string & result, Replacements const & replacement
         std::string::size_type pos = 0;
         while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 023a28d0809a0d2858535a44616dcddc23865a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 16/40] fix: make_trie_dictionary: read the files behind the
 first one

---
 main/make_trie_dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..4efe5d0 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -34,11 +34,10 @@ int main(int ac, char ** av) {
         return 1;
     }
 
-    std::ifstream file;
     std::vector<std::string> words;
 
     for (int i = 1; i < ac; ++i) {
-        file.open(av[i]);
+        std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
             continue;
-- 
2.43.0


From 2393a46f437f834d3834c6dafbb5f2ae49ea6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 17/40] fix: ocr2_extract_text: rate of unrecognized characters

---
 main/ocr2_extract_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..4a639dc 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -191,7 +191,7 @@ int main(int ac, char **av)
       << " ## result: " << result
       << "\nunrecognized_count: " << unrecognized_count
       << "\ncount: " << ambiguous.size()
-      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
+      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
 }
-- 
2.43.0


From d288588ee26d245c55b0ce4ad15a9612cf985c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 18/40] fix: ocr2_extract_text: filter the candidates of each
 position on their own

---
 main/ocr2_extract_text.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index 4a639dc..4e163e2 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -36,6 +36,7 @@
 
 #include <iostream>
 #include <chrono>
+#include <deque>
 
 using namespace ppocr;
 
@@ -100,6 +101,8 @@ int main(int ac, char **av)
 
     ocr2::image_cache_type_t images_cache;
 
+    // the candidates are filtered by position: one list by character
+    std::deque<ocr2::view_ref_list> candidates;
     ocr2::ambiguous_t ambiguous;
 
     std::cout << " ## go" << std::endl;
@@ -130,7 +133,8 @@ int main(int ac, char **av)
 
         auto it = images_cache.find(img_word);
         if (it != images_cache.end()) {
-            ambiguous.emplace_back(it->second);
+            candidates.push_back(it->second);
+            ambiguous.emplace_back(candidates.back());
         }
         else {
             std::cout << img_word;
@@ -154,7 +158,8 @@ int main(int ac, char **av)
                 img_word.clone(),
                 std::move(cache_element)
             ).first;
-            ambiguous.emplace_back(it->second);
+            candidates.push_back(it->second);
+            ambiguous.emplace_back(candidates.back());
             for (ocr2::View const & view : it->second) {
                 std::cout << glyphs.get_word(view) << " ";
             }
-- 
2.43.0


From 087f147b20aa715695e3450d4cac8e65da3e30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 19/40] fix: gravity features: no overflow on large pictures

---
 src/ppocr/strategies/hgravity2.cpp                     |  2 +-
 .../strategies/utils/diagonal_vertical_gravity.hpp     | 10 +++++-----
 src/ppocr/strategies/utils/horizontal_gravity.hpp      |  4 ++--
 src/ppocr/strategies/utils/top_bottom.hpp              |  4 +++-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ppocr/strategies/hgravity2.cpp b/src/ppocr/strategies/hgravity2.cpp
index 68947cd..cc4276a 100644
--- a/src/ppocr/strategies/hgravity2.cpp
+++ b/src/ppocr/strategies/hgravity2.cpp
@@ -29,7 +29,7 @@ hgravity2::value_type hgravity2::load(Image const & img, Image const & /*img90*/
     if (!hby2) {
         return 50;
     }
-    auto const area = ((hby2 * (hby2 + 1)) / 2) * img.width();
+    auto const area = ((std::uint64_t(hby2) * (hby2 + 1)) / 2) * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
     return ret;
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
index e7ab70d..9639692 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
@@ -25,10 +25,10 @@
 namespace ppocr { namespace strategies { namespace utils {
 
 namespace details_ {
-    inline unsigned count_diagonal_vertical_gravity(
+    inline std::uint64_t count_diagonal_vertical_gravity(
         Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top
     ) {
-        unsigned g = 0;
+        std::uint64_t g = 0;
         unsigned coef = is_top ? bnd.height() : 1;
         unsigned ih = 0;
         unsigned const wdiv2 = bnd.width()/2;
@@ -47,18 +47,18 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_gravity_area(const Image& img)
+inline std::uint64_t diagonal_vertical_gravity_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
         unsigned x = wdiv2 - bnd.width() / (bnd.height() - ih) / 2;
-        area += (bnd.width() - x*2) * (ih+1);
+        area += std::uint64_t(bnd.width() - x*2) * (ih+1);
     }
     return area * 2;
 }
diff --git a/src/ppocr/strategies/utils/horizontal_gravity.hpp b/src/ppocr/strategies/utils/horizontal_gravity.hpp
index 5652f62..be8fbc6 100644
--- a/src/ppocr/strategies/utils/horizontal_gravity.hpp
+++ b/src/ppocr/strategies/utils/horizontal_gravity.hpp
@@ -29,9 +29,9 @@ namespace ppocr { namespace strategies { namespace utils {
  * Multiply each pixel with the distance [\a bnd.height(), y]
  */
 inline
-unsigned horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
+std::uint64_t horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
 {
-    unsigned /*long*/ g = 0;
+    std::uint64_t g = 0;
     unsigned h = is_top ? bnd.height() : 1;
     while (p != ep) {
         for (auto epl = p + bnd.width(); p != epl; ++p) {
diff --git a/src/ppocr/strategies/utils/top_bottom.hpp b/src/ppocr/strategies/utils/top_bottom.hpp
index b673532..6bf382a 100644
--- a/src/ppocr/strategies/utils/top_bottom.hpp
+++ b/src/ppocr/strategies/utils/top_bottom.hpp
@@ -19,9 +19,11 @@
 #ifndef PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 #define PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies { namespace utils {
 
-struct TopBottom { unsigned top, bottom; };
+struct TopBottom { std::uint64_t top, bottom; };
 
 } } }
 
-- 
2.43.0


From 34e2878b71c4e62ce4a10c3bc0a509405092265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 20/40] fix: refuse a feature table that is cut short

---
 src/ppocr/defined_loader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index e3d6f15..c793219 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -201,6 +201,10 @@ namespace details_ {
             if (this->is_) {
                 std::istream::sentry(this->is_);
             }
+            else {
+                // values are missing: this is not the end of the datas
+                this->is_.clear(this->is_.rdstate() & ~std::ios::eofbit);
+            }
         }
 
         template<class Strategy, class... Strategies>
-- 
2.43.0


From 96bd5bae931078babce9271d7d4291b2572a8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 21/40] fix: refuse a glyph file that is cut inside of a glyph

---
 src/ppocr/loader2/glyphs_loader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 8db5621..69b0afd 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -50,7 +50,12 @@ std::istream & operator>>(std::istream& is, Glyph & glyph) {
 
 std::istream & operator>>(std::istream& is, Glyphs & glyphs) {
     Glyph glyph;
-    while (is >> glyph) {
+    while (!(is >> std::ws).eof()) {
+        if (!(is >> glyph)) {
+            // the end inside of a glyph is not the end of the glyphs
+            is.clear(is.rdstate() & ~std::ios::eofbit);
+            break;
+        }
         glyphs.push_back({std::move(glyph.img), glyph.views});
     }
     return is;
-- 
2.43.0


From 7ef6c29f9ef774d32c84da387c2e95e0858b91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 22/40] fix: write_datas refuses a glyph file that is cut short

---
 main/write_datas.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index de12784..d708275 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -47,15 +47,24 @@ int main(int ac, char **av)
 
         Image img;
         unsigned n;
-        while (loader2::read_img(file, img) >> n) {
+        bool is_complete = true;
+        while (!(file >> std::ws).eof()) {
+            is_complete = bool(loader2::read_img(file, img) >> n);
+            if (!is_complete) {
+                break;
+            }
             file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-            while (n--) {
-                file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+            while (n && file.ignore(std::numeric_limits<std::streamsize>::max(), '\n') && file.gcount()) {
+                --n;
+            }
+            is_complete = (n == 0);
+            if (!is_complete) {
+                break;
             }
             datas.load(img);
         }
 
-        if (!file.eof()) {
+        if (!is_complete || !file.eof()) {
             std::cout << '[' << file.rdbuf() << "]\n";
             std::cerr << av[1] << ": read error\n";
             return 5;
-- 
2.43.0


From 8ffb7a950a086d24650cbc6e7d404ce59eb0a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 23/40] fix: refuse a glyph table with fewer labels than
 announced

---
 src/ppocr/ocr2/glyphs.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index cc66c14..7272fdb 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -34,9 +34,12 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
     std::string word;
     constexpr auto limit_max = std::numeric_limits<std::streamsize>::max();
 
-    while (is.ignore(limit_max, '\n')) {
+    while (!(is >> std::ws).eof()) {
+        is.ignore(limit_max, '\n');
         unsigned n;
         if (!(is >> n)) {
+            // the end inside of a glyph is not the end of the glyphs
+            is.clear(is.rdstate() & ~std::ios::eofbit);
             break;
         }
         Views views;
@@ -59,6 +62,11 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++i;
         }
 
+        if (i < n) {
+            is.clear((is.rdstate() & ~std::ios::eofbit) | std::ios::failbit);
+            break;
+        }
+
         glyphs.push_back(std::move(views));
     }
 
-- 
2.43.0


From 63a9e26dd25687f0528dfded77af821fb3a3e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 24/40] fix: refuse a line position file that is cut inside of
 an entry

---
 src/ppocr/ocr2/word_lines.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/word_lines.cpp b/src/ppocr/ocr2/word_lines.cpp
index ea3d983..74bebbb 100644
--- a/src/ppocr/ocr2/word_lines.cpp
+++ b/src/ppocr/ocr2/word_lines.cpp
@@ -41,7 +41,12 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, WWordsLines& wwords_line
 {
     WWordLines wwl;
     std::string s;
-    while (is >> s >> wwl.wlines) {
+    while (!(is >> std::ws).eof()) {
+        if (!(is >> s >> wwl.wlines)) {
+            // the end inside of an entry is not the end of the entries
+            is.clear(is.rdstate() & ~std::ios::eofbit);
+            break;
+        }
         if (s.size() <= 8) {
             memcpy(wwl.str_data, s.data(), s.size());
             wwl.str_len = static_cast<uint16_t>(s.size());
-- 
2.43.0


From 1e77c221a69d5cb7e66e5ea55cfea1195dea2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 25/40] fix: refuse a dictionary that is cut short or whose
 children are outside

---
 src/ppocr/spell/dictionary.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 42f35a7..7065fcb 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -91,12 +91,21 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
     unsigned sz;
     bool terminal;
     char e1, e2, e3, e4;
-    while (is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4) {
-        if (e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
+    while (is.peek() != std::istream::traits_type::eof()) {
+        if (!(is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4)
+         || e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
             throw std::runtime_error("bad format");
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+    // the childrens are after their parent and inside the dictionary
+    for (std::size_t i = 0; i < nodes.size(); ++i) {
+        std::size_t const n = nodes.size() - i;
+        std::size_t const rel = nodes[i].relative_pos();
+        if (rel > n || nodes[i].size() > n - rel || (nodes[i].size() && !rel)) {
+            throw std::runtime_error("bad format");
+        }
+    }
     dict = Dictionary(std::move(nodes));
     return is;
 }
-- 
2.43.0


From 2ca11b2a5b1d962dcd8a0a71755c8e1f30590240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 26/40] fix: refuse a picture without pixel or larger than
 countable

---
 src/ppocr/loader2/image_io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/loader2/image_io.cpp b/src/ppocr/loader2/image_io.cpp
index 309d962..bd7e65c 100644
--- a/src/ppocr/loader2/image_io.cpp
+++ b/src/ppocr/loader2/image_io.cpp
@@ -27,6 +27,11 @@ namespace ppocr { namespace loader2 {
 std::istream & read_img(std::istream & is, Image & img) {
     Bounds bnd;
     if (is >> bnd) {
+        // no pixel, or more than an image can count
+        if (!bnd.area() || bnd.area() / bnd.width() != bnd.height()) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         std::unique_ptr<Pixel[]> p(new Pixel[bnd.area()]);
         is.rdbuf()->snextc();
         is.read(p.get(), bnd.area());
-- 
2.43.0


From a2cf1f01fee16cab31dcadc06c91a2c3ac186634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 27/40] fix: make_trie_dictionary reports a file it cannot read
 to its end

---
 main/make_trie_dictionary.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 4efe5d0..3e71f12 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -47,6 +47,10 @@ int main(int ac, char ** av) {
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+
+        if (!file.eof()) {
+            std::cerr << av[i] << ": read error" << std::endl;
+        }
     }
 
     std::cout << spell::Dictionary(std::move(words));
-- 
2.43.0


From 0cfb8c7a3121ce39ece8efa8b5e533a6833d58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 28/40] fix: report an output that cannot be written

---
 main/make_trie_dictionary.cpp | 5 +++++
 main/normalize_glyphs.cpp     | 5 +++++
 main/ocr2_extract_text.cpp    | 5 +++++
 main/show_glyphs.cpp          | 5 +++++
 main/write_datas.cpp          | 5 +++++
 main/write_glyphs.cpp         | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 3e71f12..4f22802 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -54,4 +54,9 @@ int main(int ac, char ** av) {
     }
 
     std::cout << spell::Dictionary(std::move(words));
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index 517b261..dcbd8d6 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -91,4 +91,9 @@ int main(int ac, char **av)
 
     std::cerr << "Glyphs: " << glyphs.size() << std::endl;
     std::cout << glyphs;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index 4e163e2..665d36d 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -199,4 +199,9 @@ int main(int ac, char **av)
       << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 9dcedbb..81fe97d 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -65,4 +65,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; ++i_ac) {
         load_file(av[i_ac], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index d708275..3c385fc 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -72,4 +72,9 @@ int main(int ac, char **av)
     }
 
     std::cout << datas;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 363d387..1f43f72 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -117,4 +117,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; i_ac += 3) {
         load_file(av[i_ac], av[i_ac+1], av[i_ac+2], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
-- 
2.43.0


From 5af0e16ceba82ca40d29cf92946147ab0a9143e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 29/40] fix: write_glyphs reports a text file it cannot read

---
 main/write_glyphs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 1f43f72..7286774 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -90,6 +90,10 @@ static void load_file(
     if (file >> s) {
         throw_error(imagefilename, textfilename, fontname, "Box character not found");
     }
+
+    if (!file.eof()) {
+        throw_error(imagefilename, textfilename, fontname, "Text file read error");
+    }
 }
 
 }
-- 
2.43.0


From fbcfbdd557d1333373c1f6bdbcbe03db3f56d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:18 +0000
Subject: [PATCH 30/40] fix: filter_by_lines: a list of a single word takes
 part in the mean line

---
 src/ppocr/ocr2/filter_by_lines.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9dec663..9f93af1 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -68,6 +68,10 @@ namespace {
 
             vec.erase(out, vec.end());
         }
+        else if (!vec.empty()) {
+            // a single word is never removed
+            ++count;
+        }
 
         return count;
     }
-- 
2.43.0


From 81dc894ca61ab312fef13d729c5754a293113f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:49 +0000
Subject: [PATCH 31/40] fix: <= of integer_iterator also holds for equal
 positions

---
 src/ppocr/utils/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/utils/integer_iterator.hpp b/src/ppocr/utils/integer_iterator.hpp
index 57283ff..a671016 100644
--- a/src/ppocr/utils/integer_iterator.hpp
+++ b/src/ppocr/utils/integer_iterator.hpp
@@ -44,6 +44,6 @@ namespace ppocr
         bool operator==(integer_iterator const & other) const { return this->n == other.n; }
         bool operator!=(integer_iterator const & other) const { return this->n != other.n; }
         bool operator<(integer_iterator const & other) const { return this->n < other.n; }
-        bool operator<=(integer_iterator const & other) const { return this->n < other.n; }
+        bool operator<=(integer_iterator const & other) const { return this->n <= other.n; }
     };
 }
-- 
2.43.0


From f5235492ad9b5d9963cf8d0934ce5bbaf4a3f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:32 +0000
Subject: [PATCH 32/40] fix: distance of two integer_iterators of an unsigned
 type may be negative

---
 src/ppocr/utils/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/utils/integer_iterator.hpp b/src/ppocr/utils/integer_iterator.hpp
index a671016..e7b7e5d 100644
--- a/src/ppocr/utils/integer_iterator.hpp
+++ b/src/ppocr/utils/integer_iterator.hpp
@@ -33,7 +33,7 @@ namespace ppocr
         value_type n;
         integer_iterator & operator++() { ++n; return *this; }
         reference operator*() const { return n; }
-        difference_type operator-(integer_iterator const & other) const { return this->n - other.n; }
+        difference_type operator-(integer_iterator const & other) const { return static_cast<difference_type>(this->n) - static_cast<difference_type>(other.n); }
 
         integer_iterator& operator+=(difference_type n) { this->n += n; return *this; }
         integer_iterator& operator-=(difference_type n) { this->n -= n; return *this; }
-- 
2.43.0


From 10ff367e0f887fec4dc70b6ca5015ee7e57fd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:01 +0000
Subject: [PATCH 33/40] fix: a picture file that becomes shorter while it is
 read is not padded with uninitialised bytes

---
 src/ppocr/image/image_from_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 0cd94c9..c2a773d 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -105,6 +105,9 @@ namespace
             p += res;
         }
 
+        // the file may have become shorter
+        buf.len -= remaining;
+
         return buf;
     }
 
-- 
2.43.0


From 09699d1d86a37ea9125b0f5e74e284658ef78169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:01 +0000
Subject: [PATCH 34/40] fix: running out of memory while adding a picture does
 not leave the table with rows of different lengths

---
 src/ppocr/loader2/datas_loader.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/loader2/datas_loader.hpp b/src/ppocr/loader2/datas_loader.hpp
index 006d748..550cb8b 100644
--- a/src/ppocr/loader2/datas_loader.hpp
+++ b/src/ppocr/loader2/datas_loader.hpp
@@ -143,6 +143,12 @@ struct Data
         this->data_.values.push_back(Strategy::load(img, img90, ctx));
     }
 
+    void truncate(size_t n) noexcept {
+        if (n < this->data_.values.size()) {
+            this->data_.values.erase(this->data_.values.begin() + n, this->data_.values.end());
+        }
+    }
+
     value_type const & operator[](size_t i) const {
         return data_.values[i];
     }
@@ -215,9 +221,17 @@ struct Datas : private Data<Strategies>...
     void load(Image const & img) {
         auto img90 = img.rotate90();
         ctx.reset();
-        (..., static_cast<Data<Strategies>&>(*this).load(
-            img, img90, static_cast<typename Strategies::ctx_type&>(ctx)
-        ));
+        auto const count = this->size();
+        try {
+            (..., static_cast<Data<Strategies>&>(*this).load(
+                img, img90, static_cast<typename Strategies::ctx_type&>(ctx)
+            ));
+        }
+        catch (...) {
+            // all or none of the strategies have a value
+            (..., static_cast<Data<Strategies>&>(*this).truncate(count));
+            throw;
+        }
     }
 
     bool lt(size_t i1, size_t i2) const {
-- 
2.43.0


From 060d4f75e3e22d5a3214d2c35934a7b778f2ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:01 +0000
Subject: [PATCH 35/40] fix: scratch state whose computation failed does not
 count as computed

---
 src/ppocr/strategies/utils/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/utils/context.hpp b/src/ppocr/strategies/utils/context.hpp
index 970f878..44de6e0 100644
--- a/src/ppocr/strategies/utils/context.hpp
+++ b/src/ppocr/strategies/utils/context.hpp
@@ -25,8 +25,8 @@ struct cache_context : Ctx
     {
         Ctx& ctx = *this;
         if (!is_loaded) {
-            is_loaded = true;
             ctx.compute(img);
+            is_loaded = true;
         }
         return ctx.value();
     }
-- 
2.43.0


From 06865e1f0915cfb239b17c3d589b439ca4671f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:25 +0000
Subject: [PATCH 36/40] fix: a glyph table that was not loaded has no words

---
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 9a30e61..df65209 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -82,7 +82,7 @@ struct Glyphs : std::vector<Views> {
 
 private:
     std::unique_ptr<unsigned[]> buf_word;
-    unsigned buf_word_sz;
+    unsigned buf_word_sz = 0;
 
     string const & get_word_(unsigned i) const
     { return *reinterpret_cast<string const *>(this->buf_word.get() + i); }
-- 
2.43.0


From 647708ef99248f5d019dbadefac47d39b24043d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:54 +0000
Subject: [PATCH 37/40] fix: the nodes of an empty tree are an empty range,
 without an element that does not exist

---
 src/ppocr/container/trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/container/trie.hpp b/src/ppocr/container/trie.hpp
index 012ceb1..40a62d3 100644
--- a/src/ppocr/container/trie.hpp
+++ b/src/ppocr/container/trie.hpp
@@ -249,8 +249,8 @@ public:
     range childrens() const
     {
         return {
-            &this->elems_[0],
-            &this->elems_[0] + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
+            this->elems_.data(),
+            this->elems_.data() + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
         };
     }
 
-- 
2.43.0


From 84ce65fb37a59a4e239346180cc50987d9e85fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:48 +0000
Subject: [PATCH 38/40] fix: density and share features: no overflow on very
 large pictures

---
 src/ppocr/strategies/density.cpp              | 4 +++-
 src/ppocr/strategies/dzdensity.cpp            | 5 +++--
 src/ppocr/strategies/proportionality.cpp      | 4 +++-
 src/ppocr/strategies/proportionality_zone.cpp | 3 ++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/strategies/density.cpp b/src/ppocr/strategies/density.cpp
index eb5de9d..8312d4c 100644
--- a/src/ppocr/strategies/density.cpp
+++ b/src/ppocr/strategies/density.cpp
@@ -20,11 +20,13 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_type& /*ctx*/)
 {
-    unsigned count = 0;
+    std::uint64_t count = 0;
     auto first = img.data();
     auto last = img.data_end();
     for (; first != last; ++first) {
diff --git a/src/ppocr/strategies/dzdensity.cpp b/src/ppocr/strategies/dzdensity.cpp
index fda4cef..14c0b0d 100644
--- a/src/ppocr/strategies/dzdensity.cpp
+++ b/src/ppocr/strategies/dzdensity.cpp
@@ -21,6 +21,7 @@
 #include "ppocr/image/image.hpp"
 
 #include <algorithm>
+#include <cstdint>
 
 namespace ppocr { namespace strategies {
 
@@ -52,8 +53,8 @@ dzdensity::value_type dzdensity::load(Image const & img, Image const & /*img90*/
         return 0;
     }
 
-    int res = 0;
-    int area = 0;
+    std::int64_t res = 0;
+    std::int64_t area = 0;
     auto data = img.data();
     dzdensity_load_impl(img, [&](int xs, int xe) {
         xs = std::max(0, xs);
diff --git a/src/ppocr/strategies/proportionality.cpp b/src/ppocr/strategies/proportionality.cpp
index 3d4c77f..457410c 100644
--- a/src/ppocr/strategies/proportionality.cpp
+++ b/src/ppocr/strategies/proportionality.cpp
@@ -19,10 +19,12 @@
 #include "ppocr/strategies/proportionality.hpp"
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 
 namespace ppocr { namespace strategies {
 
 proportionality::value_type proportionality::load(Image const & img, Image const & /*img90*/, ctx_type& /*ctx*/)
-{ return img.width() * 100 / (img.width() + img.height()); }
+{ return std::uint64_t{img.width()} * 100 / (img.width() + img.height()); }
 
 } }
diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index f8b22ab..1c9edcd 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -21,6 +21,7 @@
 #include "ppocr/strategies/utils/relationship.hpp"
 
 #include <algorithm>
+#include <cstdint>
 #include <numeric>
 
 namespace ppocr { namespace strategies {
@@ -51,7 +52,7 @@ proportionality_zone::value_type proportionality_zone::load(Image const & img, I
     ret.resize(static_cast<std::size_t>(it - ret.begin()));
 
     for (unsigned& n : ret) {
-        n = n * 100 / area;
+        n = std::uint64_t{n} * 100 / area;
     }
 
     std::sort(ret.begin(), ret.end());
-- 
2.43.0


From 47a899b31f9901be08f0a7ea59183c57a1b1b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:21 +0000
Subject: [PATCH 39/40] fix: Probabilities: an allocation that fails is
 std::bad_alloc, not a null pointer

---
 src/ppocr/ocr2/probabilities.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/probabilities.hpp b/src/ppocr/ocr2/probabilities.hpp
index 5ecbb75..2f60f66 100644
--- a/src/ppocr/ocr2/probabilities.hpp
+++ b/src/ppocr/ocr2/probabilities.hpp
@@ -20,6 +20,7 @@
 #define PPOCR_SRC_OCR2_PROBABILITIES_HPP
 
 #include <cstdlib>
+#include <new>
 #include <utility>
 
 namespace ppocr { namespace ocr2 {
@@ -39,7 +40,11 @@ struct Probabilities
     : data(static_cast<Probability*>(
         aligned_alloc(alignof(Probability), sz * sizeof(Probability))))
     , current(data)
-    {}
+    {
+        if (!this->data && sz) {
+            throw std::bad_alloc();
+        }
+    }
 
     Probabilities(Probabilities const &) = delete;
     Probabilities& operator=(Probabilities const &) = delete;
-- 
2.43.0


From f8dcf1c7ba94834bc9189728406893f06ea54157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:44 +0000
Subject: [PATCH 40/40] fix: loading tables: memory is taken for what is read,
 not for a number that may be damaged

---
 src/ppocr/defined_loader.hpp        | 13 +++++++------
 src/ppocr/loader2/glyphs_loader.cpp |  7 ++++---
 src/ppocr/ocr2/glyphs.cpp           |  5 ++---
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index c793219..a657e20 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -212,9 +212,10 @@ namespace details_ {
             typename loader2::Data<Strategy>::container_type cont;
 
             if (this->is_) {
-                cont.resize(this->data_sz_);
-                for (auto & x : cont) {
-                    this->read(x);
+                // the number is not trusted: it may be damaged
+                for (std::size_t i = 0; i < this->data_sz_ && this->is_; ++i) {
+                    cont.emplace_back();
+                    this->read(cont.back());
                 }
             }
 
@@ -233,9 +234,9 @@ namespace details_ {
         void read(std::vector<T> & cont) const {
             std::size_t sz;
             if (this->is_ >> sz) {
-                cont.resize(sz);
-                for (auto & x : cont) {
-                    this->is_ >> x;
+                T x;
+                for (std::size_t i = 0; i < sz && (this->is_ >> x); ++i) {
+                    cont.push_back(x);
                 }
             }
         }
diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 69b0afd..fec559a 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -34,9 +34,10 @@ std::istream & operator>>(std::istream& is, Views & views) {
         return is;
     }
     unsigned i = 0;
-    views.resize(n);
-    while (i < n && (is >> views[i])) {
-        ++i;
+    views.clear();
+    // the number is not trusted: it may be damaged
+    for (View view; i < n && (is >> view); ++i) {
+        views.push_back(std::move(view));
     }
     return is;
 }
diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 7272fdb..1b62bc4 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -43,7 +43,6 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             break;
         }
         Views views;
-        views.resize(n);
 
         unsigned i = 0;
         while (i < n && (is >> word >> font).ignore(limit_max, '\n')) {
@@ -51,13 +50,13 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             if (it_word == word_map.end()) {
                 it_word = word_map.emplace(std::move(word), word_map.size()).first;
             }
-            views[i].word = it_word->second;
 
             auto it_font = font_map.find(font);
             if (it_font == font_map.end()) {
                 it_font = font_map.emplace(std::move(font), font_map.size()).first;
             }
-            views[i].font = it_font->second;
+            // the number is not trusted: it may be damaged
+            views.push_back({it_word->second, it_font->second});
 
             ++i;
         }
-- 
2.43.0

