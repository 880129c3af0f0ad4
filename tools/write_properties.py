#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S = "src/ppocr/"

prop("P01", "Well-formed image files decode to exactly the picture they describe",
 "Every well-formed ASCII or binary PBM/PPM file of a supported kind (P1, P3, P4, P6; any number of comment lines after the magic, any size from 1x1) loads to a picture of the declared width and height. "
 "For P6 a pixel is ink exactly when its weighted brightness (red 511/1024, green 396/1024, blue 117/1024, each term rounded) is at least the luminance threshold; for P4 a clear bit is ink (most significant bit first, each row padded to a byte); for P1/P3 '1' is ink, '0' is background and spaces and newlines between or after the digits are ignored. "
 "The result depends only on the bytes of the file and the threshold.",
 ["inputs", "configurations"], "every well-formed file of the four supported kinds, every size, every pixel content, every comment layout, every luminance threshold",
 "tests/test_image.cpp loads two fixed binary pictures; widths that are not a multiple of 8, comments, thresholds, ASCII kinds and tiny files are never sampled.",
 [S+"image/image_from_file.cpp", S+"image/image_from_file.hpp"],
 [("header grammar", S+"image/image_from_file.cpp PnmHeader::parse"), ("per-kind pixel decoding", S+"image/image_from_file.cpp image_from_file")],
 ["return value of image_from_file"])

prop("P02", "Damaged or unsupported image files are refused, never misread",
 "Loading any byte sequence as an image either returns exactly the picture that the documented file grammar assigns to it or reports an error. "
 "Truncated or over-long pixel data, a wrong magic, unsupported kinds, a malformed, zero or oversized dimension, and digits other than 0/1 in the ASCII kinds are always errors. "
 "Loading never reads or writes outside the file's data, never returns pixels the file did not determine and always terminates.",
 ["inputs", "fault_sequences"], "every byte sequence, in particular every truncation, extension, byte flip and header edit of a well-formed file",
 "The tests only load intact pictures, so no error path and no length check is ever executed on hostile sizes.",
 [S+"image/image_from_file.cpp"],
 [("length and grammar checks", S+"image/image_from_file.cpp image_from_file"), ("size overflow check", S+"image/image_from_file.cpp image_from_file")],
 ["return value or exception of image_from_file"])

prop("P03", "Cropping, rotating, copying, comparing and printing keep every pixel",
 "A cropped picture holds exactly the requested rectangle, a picture rotated by a quarter turn maps pixel (x,y) of a W-wide picture to column y, row W-1-x, four quarter turns and a copy give an equal picture, and the printed form is the rows framed with ':'. "
 "Two pictures are equal exactly when their sizes and all pixels agree. "
 "The picture ordering is a strict total order consistent with that equality (width, then height, then pixels), so sorting and lookup by picture never lose or merge different pictures.",
 ["inputs"], "every picture, every rectangle inside it, every pair and triple of pictures",
 "tests/test_image.cpp rotates and prints two pictures; the order axioms and the pixel mapping quantify over all pictures and pairs.",
 [S+"image/image.cpp", S+"image/image.hpp", S+"image/image_from_string.cpp", S+"utils/image_compare.cpp", S+"utils/image_compare.hpp"],
 [("crop/rotate/clone", S+"image/image.cpp"), ("three-way comparison", S+"utils/image_compare.cpp")],
 ["results of section, rotate90, clone, ==, image_compare, operator<<"])

prop("P04", "Line segmentation yields every glyph once, left to right, tightly cropped",
 "Scanning a picture from the left, where each search starts at the right edge of the previous box, yields boxes that are disjoint and ordered, lie inside the picture, together contain every ink pixel, and are empty-margin tight on top and bottom with ink in the first and last column. "
 "A box is a maximal run of columns in which every two neighbouring columns have touching ink (same row or one row apart): it never splits touching columns and never joins columns that do not touch. "
 "The search ends with an empty box exactly when no ink remains; ink in the last column or last row is treated like any other.",
 ["inputs", "histories"], "every picture and every step of the left-to-right scan over it",
 "tests/test_make_box_character.cpp segments one eight-letter line in the middle of a canvas; edges of the picture, one-pixel glyphs, diagonal contacts and wide scans are not sampled.",
 [S+"box_char/make_box_character.cpp", S+"box_char/box.hpp", "main/show_glyphs.cpp"],
 [("column scan and 8-neighbour contact", S+"box_char/make_box_character.cpp make_box_character")],
 ["sequence of boxes returned by the scan"])

prop("P05", "Ink-mass features equal their definitions on every glyph picture",
 "For every glyph picture the density feature is the whole percentage of ink pixels, the proportion feature is the whole percentage width/(width+height), and the horizontal-bar feature is the number of separate groups of fully inked rows. "
 "The diagonal-band density is the whole percentage of ink inside the central diagonal band (0 when either side is under 3 pixels). "
 "All of them stay within their declared range (0..100, bars up to half the rows, rounded up) and the column-wise variants equal the row-wise ones of the rotated picture.",
 ["inputs"], "every non-empty picture, of every width, height and content",
 "tests/strategies check each feature on about three fixed letters; rounding, degenerate sizes and extreme aspect ratios are not covered.",
 [S+"strategies/density.cpp", S+"strategies/dzdensity.cpp", S+"strategies/proportionality.cpp", S+"strategies/hbar.cpp", S+"defined_loader.hpp"],
 [("feature extraction", S+"strategies/*.cpp load")],
 ["values extracted for a picture"])

prop("P06", "Balance features equal their definitions on every glyph picture",
 "For every glyph picture the direction features compare the ink of the top half with that of the bottom half (middle row of an odd height ignored), the gravity features do so with each row weighted by its distance to the middle, and the diagonal variants count only the ink inside the triangular region narrowing towards the middle. "
 "The relative form is 100*(sum+top-bottom)/sum in 0..200 (100 without ink). The absolute form relates to the largest sum a half can attain and stays in 0..100 (50 for a single row): 100*(max+top-bottom)/(2*max) for whole halves, 100*top/max for the triangular region. "
 "Flipping a picture upside down negates top minus bottom, and the column-wise variants equal the row-wise ones of the rotated picture.",
 ["inputs"], "every non-empty picture, of every width, height and content",
 "tests/strategies check each feature on about three fixed letters; odd/even heights, single rows, very wide or tall glyphs and saturated glyphs are not covered.",
 [S+"strategies/hdirection.cpp", S+"strategies/hdirection2.cpp", S+"strategies/hgravity.cpp", S+"strategies/hgravity2.cpp", S+"strategies/dvdirection.cpp", S+"strategies/dvdirection2.cpp", S+"strategies/dvgravity.cpp", S+"strategies/dvgravity2.cpp", S+"strategies/utils/horizontal_direction.hpp", S+"strategies/utils/horizontal_gravity.hpp", S+"strategies/utils/diagonal_vertical_direction.hpp", S+"strategies/utils/diagonal_vertical_gravity.hpp"],
 [("top/bottom accumulation", S+"strategies/utils/"), ("normalisation to 0..200 / 0..100", S+"strategies/*.cpp load")],
 ["values extracted for a picture"])

prop("P07", "Structure features equal their definitions on every glyph picture",
 "For every glyph picture the alternation feature gives, for seven scan lines or bands (two rows, top and bottom third, middle column, left and right third), whether it starts with ink and how many ink/background runs it has. "
 "The zone feature gives whether the top-left and bottom-right corners are ink, how many separate background regions (connected by edges) touch the top, right, bottom and left border, and how many touch none. "
 "The zone-proportion feature is the ascending list of each border-touching region's share in whole percent, counted on the first side it touches in the order top, right, bottom, left.",
 ["inputs"], "every non-empty picture, of every width, height and content, including labyrinths and pictures of a single row or column",
 "tests/strategies check a few letters with one or two holes; the number and nesting of regions, degenerate sizes and buffer sizing are unbounded.",
 [S+"strategies/alternations.cpp", S+"strategies/zone.cpp", S+"strategies/proportionality_zone.cpp", S+"strategies/utils/count_zone.hpp"],
 [("flood fill of background regions", S+"strategies/utils/count_zone.hpp count_zone_fn::compute"), ("run counting", S+"strategies/alternations.cpp")],
 ["values extracted for a picture"])

prop("P08", "Features of a picture never depend on what was processed before",
 "Extracting all features of a picture gives the same values whether it is the first picture or comes after any sequence of other pictures of any sizes, whether the scratch state and picture buffers are fresh or reused, and whether it is done by the learning path or by the recognition path. "
 "A feature table filled with pictures one by one holds, at each position, exactly the features of the picture added there. "
 "A reused picture buffer always shows exactly the pixels last written to it and their quarter turn.",
 ["histories", "inputs"], "every sequence of pictures processed with shared caches, scratch buffers and picture buffers, growing and shrinking in size",
 "Each test computes one feature with a fresh context, so stale caches, shared contexts between features and buffer reuse are never exercised.",
 [S+"strategies/utils/context.hpp", S+"strategies/utils/count_zone.hpp", S+"loader2/datas_loader.hpp", S+"ocr2/image_context.hpp", S+"defined_loader.hpp", S+"ocr2/compute_image.hpp"],
 [("cache reset per picture", S+"strategies/utils/context.hpp cache_context, contexts_t"), ("distinct caches for the rotated variants", S+"loader2/datas_loader.hpp MakeRotatedCtx"), ("grow-only buffers", S+"ocr2/image_context.hpp")],
 ["feature table entries", "values extracted through a shared context", "pixels seen through the reused buffers"])

prop("P09", "Feature similarity is bounded, exact and consistent with the tolerance tests",
 "For any two values a feature can take, their similarity lies in [0,1], is 1 for identical values, and equals one minus the difference relative to the feature's range (in whole percent) for numeric features, the share of equal entries for fixed-length features, and 0 for zone lists of different length. "
 "Numeric and fixed-length similarity is symmetric, and a larger difference never gives a larger similarity. "
 "The tolerance test of a numeric feature flags exactly the pairs that differ by more than the tolerance, that of the other features exactly the pairs at least as similar as asked; comparing never fails for any two extractable values.",
 ["inputs"], "every pair of feature values in range, every tolerance",
 "tests/strategies read off a few pairs per relation; the axioms quantify over all pairs, including zero shares and extreme values.",
 [S+"strategies/relationship/interval.hpp", S+"strategies/relationship/equal.hpp", S+"strategies/relationship/array_compare.hpp", S+"strategies/utils/relationship.hpp", S+"strategies/proportionality_zone.cpp", S+"loader2/datas_loader.hpp"],
 [("similarity and tolerance", S+"strategies/relationship/")],
 ["dist, in_dist, compute and count of each feature; dist_with and in_dist_with of a feature table"])

prop("P10", "Glyph files survive being written and read back, for both readers",
 "Writing any list of learned glyphs (picture plus one or more word/font/line labels) and reading it back gives the same list: same order, pictures and labels. "
 "Concatenating glyph files and reading the result gives the concatenated lists, and reading appends to what is already there. "
 "The recogniser's own reader sees in the same file the same number of glyphs with the same words and the same font grouping, in the same order.",
 ["inputs", "histories"], "every list of glyphs with any picture size and any non-blank word and font names, including multi-byte words",
 "tests/loader2 round-trips one fixed glyph list; picture sizes, label counts, names and concatenation are unbounded.",
 [S+"loader2/glyphs_loader.cpp", S+"loader2/glyphs_loader.hpp", S+"loader2/image_io.cpp", S+"ocr2/glyphs.cpp"],
 [("text format writer/reader", S+"loader2/glyphs_loader.cpp"), ("recognition-side reader", S+"ocr2/glyphs.cpp operator>>")],
 ["lists read back"])

prop("P11", "Feature data files survive being written and read back",
 "Writing the feature table of any list of glyph pictures and loading it back yields a table with the same number of entries and identical values for every feature of every glyph. "
 "Writing the loaded table again reproduces the file byte for byte, and the loaded table drives comparisons exactly like the original. "
 "An empty table also survives.",
 ["inputs"], "every list of pictures, including pictures without border zones (empty lists) and tables with no entry",
 "No test writes or reads a complete feature table; the variable-length feature and the order of the columns are never exercised.",
 [S+"defined_loader.hpp", S+"loader2/datas_loader.hpp", S+"strategies/alternations.cpp"],
 [("column-wise writer/reader", S+"defined_loader.hpp WriteApplyData, ReadApplyData")],
 ["reloaded table", "bytes written"])

prop("P12", "Normalising glyph files merges equal pictures and loses nothing",
 "The normalisation tool, given any number of glyph files, prints each distinct picture exactly once, in picture order, with exactly the set of labels that the inputs attach to that picture. "
 "The set of (picture, label) pairs does not depend on the order of the files or of the glyphs in them nor on how glyphs are split between files, and normalising the output again keeps pictures, their order and their label sets. "
 "An unreadable input file, or one whose reading stops before its end, makes the tool fail with a non-zero status.",
 ["inputs", "histories"], "every set of glyph files with any duplication pattern, order and number of files",
 "No test runs the tool; duplicates at the start, in the middle, at the end and adjacent groups of duplicates are separate paths.",
 ["main/normalize_glyphs.cpp", S+"loader2/glyphs_loader.cpp", S+"utils/image_compare.cpp"],
 [("sort, group and in-place merge", "main/normalize_glyphs.cpp main")],
 ["standard output and exit status of normalize_glyphs"])

prop("P13", "Learning pairs each segmented glyph with its word, in order",
 "For any rendered line picture and word list of the same length, the glyph writing tool prints one glyph per segmented box, left to right, holding exactly the cropped pixels, the word at the same rank and the given font name; several (image, text, font) triples are processed in order. "
 "When there are fewer or more words than glyphs the tool fails instead of shifting labels silently. "
 "The luminance option changes only which pixels count as ink, and the glyph viewer shows the same crops in the same order.",
 ["inputs", "configurations"], "every line picture, word list, font name, number of triples and luminance",
 "No test runs the tools; pairing, failure on mismatch and option handling are only observable on whole runs.",
 ["main/write_glyphs.cpp", "main/show_glyphs.cpp", S+"box_char/make_box_character.cpp", S+"loader2/glyphs_loader.cpp"],
 [("box/word pairing", "main/write_glyphs.cpp load_file"), ("option parsing", "main/write_glyphs.cpp main")],
 ["standard output and exit status of write_glyphs and show_glyphs"])

prop("P14", "The data writing tool emits one aligned feature entry per glyph",
 "For any glyph file the data writing tool prints a feature table with as many entries as the file has glyphs, and entry i holds exactly the features of the picture of glyph i. "
 "The number of labels of a glyph and the content of its words and fonts do not change the table. "
 "An unreadable glyph file, or one whose reading stops before its end, makes the tool fail with a non-zero status instead of printing a shorter table as success.",
 ["inputs"], "every glyph file: any number of glyphs, any number of labels per glyph, any words and fonts",
 "No test runs the tool; label counts and lines that must be skipped are never varied.",
 ["main/write_datas.cpp", S+"defined_loader.hpp", S+"loader2/image_io.cpp"],
 [("label skipping and table filling", "main/write_datas.cpp main")],
 ["standard output and exit status of write_datas"])

prop("P15", "A learned glyph is always recognised as itself",
 "For any set of learned glyphs, recognising a picture that is identical to a learned one returns a non-empty candidate list that contains every label word of that learned glyph. "
 "When every numeric feature matches a learned glyph perfectly (similarity 100 %), only labels of glyphs that match that perfectly are returned. "
 "The answer does not depend on the pictures recognised before, and glyphs with equal label words count as one candidate.",
 ["inputs", "histories"], "every set of learned glyphs (any pictures, shared words, equal pictures or equal label words) and every sequence of recognitions of its members",
 "tests/ocr2/test_compute_image.cpp runs single stages on two glyphs with two features; the guarantee quantifies over training sets and over what else is in them.",
 [S+"ocr2/compute_image.hpp", S+"ocr2/reduce_universe.hpp", S+"ocr2/sort_probabilities.hpp", S+"ocr2/insert_views.hpp", S+"ocr2/views_index_ordered.hpp", S+"ocr2/data_indexes_ordered.hpp"],
 [("window search and filters", S+"ocr2/compute_image.hpp compute_image"), ("grouping by label words", S+"ocr2/views_index_ordered.hpp")],
 ["candidate list returned by recognition"])

prop("P16", "Recognition of any picture equals an exhaustive comparison with every glyph",
 "For any learned set and any picture, the candidates are exactly those an exhaustive comparison yields: glyphs whose every numeric feature is within a tenth of its range of the picture's, scored by the product of the similarities. "
 "If no score is perfect the structural features must be at least half similar and multiply the score, and a glyph whose first word is shared with other glyphs is kept only if at least one of those others is at least half similar in both zone features; one best-scoring glyph is kept per group with equal label words, and all labels of those reaching half the best score are returned, best first. "
 "Pre-sorted indexes, scratch buffers and previous recognitions never add, lose or reorder candidates.",
 ["inputs", "histories"], "every learned set, every query picture, every sequence of queries sharing the scratch state",
 "tests/ocr2/test_compute_image.cpp runs single stages on two glyphs; the shortcut index, duplicate removal and limits interact only on particular sets.",
 [S+"ocr2/compute_image.hpp", S+"ocr2/reduce_universe.hpp", S+"ocr2/sort_probabilities.hpp", S+"ocr2/indexes_ordered.hpp", S+"ocr2/data_indexes_ordered.hpp", S+"ocr2/probabilities.hpp"],
 [("candidate filtering pipeline", S+"ocr2/compute_image.hpp")],
 ["candidate list returned by recognition"])

prop("P17", "Recognition indexes are complete and exact",
 "For any learned set, the same-word index lists for each glyph exactly the other glyphs with the same first word, and the ordered index returns for any value and tolerance exactly the glyphs whose value differs by at most the tolerance, each once. "
 "The label grouping maps two glyphs to the same group exactly when their lists of label words are equal. "
 "Sorting, removing duplicates and limiting scored candidates keep one best-scored candidate per group and never alter or lose another group.",
 ["inputs"], "every learned set, every value and tolerance, every list of scored candidates",
 "The only recognition test has two glyphs with distinct words; these indexes are built from unbounded data and never compared with a scan.",
 [S+"ocr2/data_indexes_by_words.cpp", S+"ocr2/indexes_ordered.hpp", S+"ocr2/data_indexes_ordered.hpp", S+"ocr2/views_index_ordered.hpp", S+"ocr2/sort_probabilities.hpp", S+"ocr2/probabilities.hpp"],
 [("same-word lists", S+"ocr2/data_indexes_by_words.cpp"), ("sorted permutation + bounds", S+"ocr2/indexes_ordered.hpp"), ("label groups", S+"ocr2/views_index_ordered.hpp")],
 ["contents of the indexes"])

prop("P18", "The recogniser's glyph table returns exactly the words and fonts of the file",
 "After loading any glyph file whose glyphs all have a label, every label of every glyph yields exactly its word, byte for byte and terminated, whatever the word's length; two labels have the same word number exactly when the words are equal, and likewise for fonts. "
 "Looking up a word finds its number exactly when some label has that very word, never when it is only a prefix or extension of one. "
 "Loading and looking up never touch memory outside the table.",
 ["inputs"], "every glyph file and every looked-up string, for words of any length including prefixes of each other",
 "No test loads the table with words longer than one byte or looks up missing words.",
 [S+"ocr2/glyphs.cpp", S+"ocr2/glyphs.hpp"],
 [("packed word buffer", S+"ocr2/glyphs.cpp operator>>"), ("ordered lookup", S+"ocr2/glyphs.hpp word_index_of")],
 ["words, fonts and lookups of the loaded table"])

prop("P19", "Line-position information is loaded and found for exactly the listed words",
 "Reading a line-position file that lists each word at most once keeps, in order, every entry whose word has at most 8 bytes, with its four line settings, and skips longer words without losing the entries around them. "
 "Looking up a word of the glyph table gives its entry exactly when the file lists that very word, and nothing otherwise. "
 "Words listed in the file but absent from the glyph table are ignored.",
 ["inputs"], "every line-position file and every glyph table",
 "No test loads line-position information; longer words, missing words and mixed orders are not sampled.",
 [S+"ocr2/word_lines.cpp", S+"ocr2/word_lines.hpp", S+"ocr2/words_infos.hpp", S+"ocr2/glyphs.hpp"],
 [("reader with length limit", S+"ocr2/word_lines.cpp"), ("sorted lookup", S+"ocr2/words_infos.hpp")],
 ["entries read; lookups by word number"])

prop("P20", "Line-position filtering removes exactly the candidates that contradict the line",
 "Given boxes of one text line, the reference base line is the most frequent box bottom (topmost on a tie), and in every list with more than one distinct candidate word exactly the candidates whose base-line setting contradicts their box's bottom are removed (1: at least two rows above the line, 2: within one row of it, 3: anywhere above, 4: at least two rows below, 6: anywhere below, others: no constraint); the order of the others is unchanged. "
 "If lists that hold a single word then, from the start or after the removal, establish a mean line (most frequent top among words with both settings 2), candidates contradicting it are removed likewise. "
 "Lists with a single candidate word, words without information and an empty line are left alone, and any box coordinates are accepted.",
 ["inputs"], "every line of boxes at any coordinates, every candidate list and every line-position setting",
 "No test runs the line filter; extreme first boxes, single boxes and settings combinations are not sampled.",
 [S+"ocr2/filter_by_lines.cpp", S+"ocr2/filter_by_lines.hpp", S+"ocr2/words_infos.hpp"],
 [("base line / mean line histogram", S+"ocr2/filter_by_lines.cpp"), ("stable removal by word", S+"ocr2/filter_by_lines.cpp filter_line")],
 ["candidate lists after the call"])

prop("P21", "Font filtering keeps the dominant font's candidate and nothing else changes",
 "The dominant font is the most frequent one among positions with exactly one candidate (smallest font number on a tie) and is the value returned; without such a position nothing changes and 'no font' is returned. "
 "If it is the only such font or covers at least half (rounded down) of all positions, every position with several candidates is reduced to one: its first candidate in that font, else its first candidate. "
 "Otherwise, and for all positions with zero or one candidate, the lists are unchanged.",
 ["inputs"], "every list of positions with any candidates and fonts",
 "No test runs the font filter.",
 [S+"ocr2/filter_by_font.cpp", S+"ocr2/filter_by_font.hpp"],
 [("font vote and reduction", S+"ocr2/filter_by_font.cpp")],
 ["candidate lists and value returned"])

prop("P22", "A dictionary contains exactly its words and survives saving and loading",
 "A dictionary built from any list of words (any order, duplicates, prefixes of one another, multi-byte characters, blank entries) accepts exactly the non-empty words of the list, in both its linked and its flat form. "
 "Saving and loading it gives a dictionary that saves to the same bytes and accepts the same words; a list with the same words in another order gives the same dictionary. "
 "A saved dictionary whose separators are damaged is refused.",
 ["inputs"], "every word list over valid text, every order and duplication, every probe word",
 "tests/spell and tests/container use about a dozen words; prefix sharing, deep and wide nodes, and membership of near misses are unbounded.",
 [S+"container/trie.hpp", S+"spell/dictionary.cpp", S+"spell/dictionary.hpp"],
 [("grouped insertion", S+"container/trie.hpp trie::insert_after"), ("breadth-first flattening with relative positions", S+"container/trie.hpp flat_trie"), ("text serialisation", S+"spell/dictionary.cpp")],
 ["enumeration of the tree, saved bytes, membership"])

prop("P23", "Dictionary search picks the first candidate combination that spells a word",
 "Given for each position of a word an ordered list of candidate strings (each of one or more characters) and a dictionary, the search succeeds exactly when some choice of one candidate per position concatenates to a dictionary word. "
 "The text appended is then the concatenation of the first such choice in candidate order; otherwise the output is unchanged. "
 "Text already in the output, an empty dictionary, an empty range and positions without candidates never produce a wrong or partial word.",
 ["inputs"], "every dictionary and every sequence of candidate lists, with multi-byte and multi-character candidates",
 "tests/spell/test_word_disambiguouser.cpp samples a few single-character cases; backtracking and ligature candidates are unbounded.",
 [S+"spell/word_disambiguouser.hpp", S+"container/trie.hpp", S+"utils/utf.hpp"],
 [("depth-first search over the dictionary tree", S+"spell/word_disambiguouser.hpp")],
 ["result and output string"])

prop("P24", "Text assembly keeps every position, space, punctuation mark and unknown glyph",
 "The assembled text is the line's words in order, separated by exactly one space wherever a space was detected; each run between spaces and punctuation is the dictionary's choice if one exists and otherwise the best candidate of each position. "
 "Punctuation marks are copied as they are, and every position without candidates appears as '?'; the number of such positions is returned. "
 "This holds wherever punctuation and unknown glyphs stand: at the start, at the end, alone between spaces or in a row.",
 ["inputs"], "every sequence of candidate lists, every set of space positions, every dictionary",
 "No test assembles text; leading punctuation and unknown glyphs next to spaces are not sampled.",
 [S+"ocr2/disambiguous_with_dict.cpp", S+"ocr2/disambiguous_with_dict.cpp", S+"spell/word_disambiguouser.hpp"],
 [("run splitting and assembly", S+"ocr2/disambiguous_with_dict.cpp")],
 ["text and unknown count returned"])

prop("P25", "Text iteration visits each character of valid UTF-8 exactly once",
 "For any valid UTF-8 text the code-point iterator yields exactly the text's Unicode code points in order, the byte-packed iterator yields for each character its bytes packed big-endian, and both then yield 0 at the end. "
 "Their reported position is always the byte just after the current character. "
 "The packed values identify characters uniquely, so spelling them out again reproduces the text.",
 ["inputs"], "every valid UTF-8 text: all code points of every encoded length, alone and in sequence",
 "No test covers three- and four-byte characters systematically.",
 [S+"utils/utf.hpp"],
 [("lead-byte dispatch", S+"utils/utf.hpp")],
 ["sequence of values and positions"])

prop("P26", "Replacement rules are read and applied exactly as written",
 "Reading a rules file yields one rule per line in order: the pattern, and the replacement if the line has one, else an empty replacement, also for the last line without a newline. "
 "Applying rules replaces, rule after rule, every occurrence of the pattern found from left to right in the text not produced by that same rule, and leaves the rest unchanged. "
 "Applying always terminates, also when a replacement contains its own pattern.",
 ["inputs"], "every rules file and every text",
 "No test reads or applies rules.",
 [S+"ocr2/replacement.cpp", S+"ocr2/replacement.hpp"],
 [("line reader", S+"ocr2/replacement.cpp"), ("left-to-right replacement", S+"ocr2/replacement.hpp replace_words")],
 ["rules read; text after replacement"])

prop("P27", "The extraction tool prints the text, counts and rate the line determines",
 "Given glyphs, their data, a line picture and optional line-position and dictionary files, the extraction tool prints the text that segmentation, recognition, line, font and dictionary resolution of that line determine, with a space wherever more than 4 blank columns precede a glyph. "
 "The glyph count is the number of segmented glyphs, the unrecognised count the number of those without candidates, and the rate is 100 times their quotient (0 for a line without glyphs). "
 "A picture that stands at several places of the line is resolved for each place on its own, and glyph and data files of different lengths make the tool fail.",
 ["inputs", "configurations", "histories"], "every learned set, every line composed of learned and unknown glyphs with any gaps, with and without the optional files",
 "The only end-to-end test needs a data file that is missing from the repository, so it does not run.",
 ["main/ocr2_extract_text.cpp", S+"ocr2/compute_image.hpp", S+"ocr2/filter_by_lines.cpp", S+"ocr2/filter_by_font.cpp", S+"ocr2/disambiguous_with_dict.cpp", S+"ocr2/image_context.hpp", S+"ocr2/cache.hpp"],
 [("line loop, picture cache, space detection", "main/ocr2_extract_text.cpp main")],
 ["standard output and exit status of ocr2_extract_text"])

prop("P28", "Loading data files reports every file that cannot be read to its end",
 "Loading glyph tables, feature tables, line-position files or dictionaries from a path succeeds exactly when the file can be opened and its reader consumes it to the end, and then gives the same value as reading the same bytes from memory. "
 "A missing file, or content at which the reader stops early, raises an error. "
 "Nothing loaded is reported as success with content left unread.",
 ["inputs", "fault_sequences"], "every loadable file content followed by nothing, blanks or foreign content, and every unreadable path",
 "No test covers failing loads.",
 [S+"utils/read_file.hpp", S+"defined_loader.hpp", S+"ocr2/word_lines.cpp", S+"spell/dictionary.cpp"],
 [("open and end-of-file checks", S+"utils/read_file.hpp check_read_file")],
 ["value or exception of the loader"])

prop("P29", "The dictionary tool stores the words of all the files it is given",
 "The dictionary building tool, given any number of word files (one word per line, last line with or without a newline, blank lines allowed), prints a dictionary that contains exactly the distinct non-empty lines of all readable files. "
 "The output does not depend on the order of the files or lines. "
 "An unreadable file is reported and does not affect the words of the others.",
 ["inputs", "fault_sequences"], "every list of word files, including missing ones at any position",
 "No test runs the tool.",
 ["main/make_trie_dictionary.cpp", S+"spell/dictionary.cpp", S+"container/trie.hpp"],
 [("file loop", "main/make_trie_dictionary.cpp main")],
 ["standard output of make_trie_dictionary"])

prop("P30", "The learn-then-read pipeline reads back the text it was taught",
 "For any alphabet of pairwise clearly different glyph pictures, learning them with the tools (write, normalise, compute data) and then extracting text from a line composed of those glyphs, spaced by at least one and at most 4 blank columns within words and by more between words, prints exactly the taught words in order with single spaces and an unrecognised count of 0. "
 "The result does not depend on how many times or in how many files the glyphs were taught, nor on their order. "
 "A dictionary or line-position file consistent with the text does not change it.",
 ["inputs", "configurations", "histories"], "every alphabet, every text over it, every spacing and every way of teaching the same glyphs",
 "No test runs the pipeline from learning to reading.",
 ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/ocr2_extract_text.cpp", "main/make_trie_dictionary.cpp", "learning"],
 [("file formats shared by the tools", S+"loader2/, "+S+"defined_loader.hpp, "+S+"ocr2/glyphs.cpp")],
 ["standard output of the tool chain"])

prop("P31", "A tool whose output cannot be written in full reports failure",
 "Each of the six tools, given valid inputs, exits with status 0 only if its whole standard output was written: when the device is full, the reader is gone or the file may not grow, its status is not 0, whatever the amount that could be written. "
 "What was written is then the beginning of the output the tool prints undisturbed. "
 "With enough room, to the byte, the status is 0.",
 ["fault_sequences", "crash_points", "inputs"], "every tool, every valid input and every byte count at which writing starts to fail",
 "No test runs a tool, let alone with a failing output; the learning script decides by the status whether a table is complete.",
 ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/make_trie_dictionary.cpp", "main/show_glyphs.cpp", "main/ocr2_extract_text.cpp"],
 [("flush and status at the end", "main/*.cpp main")],
 ["standard output and exit status of the tools"])

prop("P32", "The learning script rebuilds the tables from font images or leaves them alone",
 "The learning script turns a tree of font images (generated fonts sharing one letter list per alphabet, hand-made fonts with a word list per image) into three normalised glyph files, for the first alphabet, the second and both, that hold exactly the segmented pictures with their words and the font directory's name, and three feature files aligned with them; earlier contents are replaced. "
 "The result does not depend on the directory it is started from nor on how the tools are named. "
 "If an image or a word list is wrong the script fails and the earlier glyph and feature files keep their contents.",
 ["inputs", "configurations", "fault_sequences"], "every tree of font images and every wrong image or word list in it",
 "No test runs the script.",
 ["learning", "main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp"],
 [("status of each step", "learning"), ("label and box counts", "main/write_glyphs.cpp load_file")],
 ["files under resources/glyphs and resources/datas; exit status of the script"])

prop("P33", "A tool refuses wrong command lines and unreadable or malformed inputs",
 "Each of the six tools succeeds (status 0) on a correct command line and fails (status other than 0, no memory error) when the number of arguments is not one it takes, when the luminance option is not a number, or when one of its inputs is missing, a directory or malformed, at whatever position. "
 "The dictionary tool alone only reports unreadable word files and goes on.",
 ["inputs", "configurations", "fault_sequences"], "every tool, every command line with one thing wrong at any position",
 "No test runs a tool.",
 ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/make_trie_dictionary.cpp", "main/show_glyphs.cpp", "main/ocr2_extract_text.cpp", S+"utils/image_from_file.hpp"],
 [("argument checks", "main/*.cpp main"), ("input checks", S+"utils/read_file.hpp")],
 ["exit status of the tools"])

prop("P34", "Data files cut short or damaged are refused, never read as smaller ones",
 "A glyph file, glyph table, feature table, line-position file or dictionary that ends inside of an entry (a value is missing) is refused by its loader and by the tools that read it; one that ends between two entries is read as the entries before, with their exact contents. "
 "A dictionary is one entry: every proper part of its lines is refused. "
 "A dictionary with changed numbers is either refused or can be walked and searched inside of its own nodes; a reference to nodes that do not exist is refused. A number of labels, entries or regions far beyond what the file holds is refused too, without memory being taken for it.",
 ["inputs", "crash_points", "fault_sequences"], "every file of the five kinds and every position at which it can be cut, every changed number in a dictionary",
 "No test loads a file that was cut or damaged; an interrupted write leaves just that.",
 [S+"loader2/glyphs_loader.cpp", S+"loader2/image_io.cpp", S+"ocr2/glyphs.cpp", S+"ocr2/word_lines.cpp", S+"defined_loader.hpp", S+"spell/dictionary.cpp", "main/write_datas.cpp", "main/normalize_glyphs.cpp"],
 [("end of file inside of an entry", S+"loader2/glyphs_loader.cpp, "+S+"ocr2/glyphs.cpp, "+S+"ocr2/word_lines.cpp, "+S+"defined_loader.hpp"), ("node references", S+"spell/dictionary.cpp operator>>")],
 ["value or exception of the loaders; exit status of the tools"])

prop("P35", "The shipped Latin and Cyrillic tables are reproducible and read what they show",
 "Learning the shipped font images with the shipped tools reproduces the shipped Latin glyph table and the Latin, Cyrillic and combined data tables byte for byte, and with the result the shipped sample images read 'Computer', 'a', 'e' and (combined, with line positions) the documented line of cyrillic.negate.pnm. "
 "With the shipped Latin tables (5465 glyphs, far more than any generated table) every shipped glyph is recognised as its own word, the recognition of any picture equals an exhaustive scan of the table, and ocr2_extract_text prints for a line of glyphs what recognition, line filter, font filter and assembly define.",
 ["inputs"], "every shipped glyph and font image, every picture of a glyph, every line of glyphs of the shipped fonts",
 "The tests use a handful of glyphs; sizes, ties and near ties of the real table (thousands of glyphs, hundreds of fonts) never occur in them.",
 ["learning", "main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/ocr2_extract_text.cpp", S+"ocr2/glyphs.cpp", S+"ocr2/compute_image.hpp", S+"ocr2/reduce_universe.hpp", S+"ocr2/filter_by_lines.cpp", S+"ocr2/filter_by_font.cpp"],
 [("learning", "main/write_glyphs.cpp, main/normalize_glyphs.cpp, main/write_datas.cpp"), ("recognition", S+"ocr2/compute_image.hpp, "+S+"ocr2/reduce_universe.hpp"), ("line of text", "main/ocr2_extract_text.cpp")],
 ["tables written by the tools; candidate lists; text printed"])

prop("P36", "Dictionaries of real size hold their words and are searched like small ones",
 "The dictionary built from the shipped French word list (336531 words), by the tool or in memory, contains exactly the lines of the list, is saved, loaded and saved again without a change, refuses near misses, and a search over candidate lists picks the first combination that spells a word, as in a small dictionary. "
 "The same holds for samples of tens of thousands of its words in any order and for dictionaries with tens of thousands of different first characters.",
 ["inputs"], "every subset and order of a list of several hundred thousand words, every probe and every candidate list",
 "The tests build dictionaries of a few words; node offsets beyond 16 bits, wide nodes and long levels never occur in them.",
 [S+"container/trie.hpp", S+"spell/dictionary.cpp", S+"spell/dictionary.hpp", S+"spell/word_disambiguouser.hpp", "main/make_trie_dictionary.cpp", S+"utils/utf.hpp"],
 [("node offsets and counts", S+"container/trie.hpp flat_trie"), ("search", S+"spell/word_disambiguouser.hpp")],
 ["words contained; saved bytes; text appended by the search"])

prop("P37", "What a tool prints depends only on the contents of its inputs",
 "Each of the six tools, given valid inputs, prints the same output with the same status wherever the inputs stand and however they are named: any file name, absolute or relative path, any working directory, through symbolic links, from one file or from copies where contents are equal; whatever the locale, the environment, the name the program is started by, data on its standard input, or a closed standard input or error stream.",
 ["inputs", "configurations"], "every valid command line and every place, name and environment it can be run in",
 "No test runs the tools; shortcuts by file name, by identity of a file or by environment show only when the same contents stand elsewhere.",
 ["main/write_glyphs.cpp", "main/normalize_glyphs.cpp", "main/write_datas.cpp", "main/make_trie_dictionary.cpp", "main/show_glyphs.cpp", "main/ocr2_extract_text.cpp", S+"image/image_from_file.cpp", S+"utils/read_file.hpp"],
 [("file opening", S+"image/image_from_file.cpp, "+S+"utils/read_file.hpp, main/*.cpp")],
 ["standard output and exit status of the tools"])

prop("P38", "Index ranges, iterators and reordering behave like the lists they stand for",
 "A range over a list of indexes, with or without a projection, has the list's size, emptiness, first and last element, elements by rank and order of iteration; its positions are moved, subtracted and compared like ranks. Integer iterators are moved, subtracted and compared like the integers they stand for, over the whole range of the type, and a list made from two of them holds exactly the integers between. "
 "Reordering a list by a permutation puts the element with the k-th index at rank k, whatever the element and index types, and the inverse permutation restores the list.",
 ["inputs"], "every list, permutation, index range and pair of integers",
 "The unit test reorders three short lists; ranges, projections and iterators have no test, and errors show only at equal, reversed or extreme positions and in long lists.",
 [S+"utils/range_iterator.hpp", S+"utils/integer_iterator.hpp", S+"utils/reindex.hpp"],
 [("ranges", S+"utils/range_iterator.hpp"), ("integer iterators", S+"utils/integer_iterator.hpp"), ("reordering", S+"utils/reindex.hpp")],
 ["elements, sizes, distances and comparisons; the reordered list"])

prop("P39", "Short and failing reads never make a file look smaller",
 "Loading a picture or a data file gives the same value whatever the sizes of the pieces in which the system delivers its bytes, and each of the six tools prints the same output with the same status. "
 "When a read fails part-way, loading raises an error and the status of the tool is not 0; the dictionary tool may go on, and then reports the file, keeps every word of its other files and adds no word that no file contains. "
 "A picture whose file turns out shorter than announced is refused, or is the picture that the bytes there were encode.",
 ["inputs", "fault_sequences"], "every file, every division of it into pieces and every point at which a read fails or the file ends",
 "No test delivers a file in pieces or lets a read fail; read loops, buffer boundaries and end-of-file tests only show their errors then.",
 [S+"image/image_from_file.cpp", S+"utils/read_file.hpp", S+"loader2/glyphs_loader.cpp", S+"ocr2/glyphs.cpp", S+"defined_loader.hpp", S+"spell/dictionary.cpp", "main/make_trie_dictionary.cpp", "main/write_glyphs.cpp"],
 [("reading pictures", S+"image/image_from_file.cpp read_all"), ("loading data files", S+"utils/read_file.hpp"), ("word lists", "main/make_trie_dictionary.cpp")],
 ["values loaded or errors; standard output, error output and exit status of the tools"])

prop("P40", "Running out of memory or refusing a file leaves no trace",
 "When an allocation fails during any operation of the library (loading a picture, a table or a dictionary, writing one, extracting features and recognising with kept scratch state, segmenting and cropping, building and searching a dictionary, building indexes, resolving lines, fonts and text, applying replacement rules), the operation raises an error (an exception, or a stream that has failed) or gives its ordinary result, never another one; "
 "what it had allocated is released, no file stays open, a feature table to which adding failed keeps its rows, and the same operation afterwards, with the same tables, scratch state and buffers, gives its ordinary result. A damaged file that is refused leaves neither memory nor an open file behind, and is refused again. Repeating an operation holds no more memory than before.",
 ["inputs", "histories", "fault_sequences"], "every operation and input, every allocation that may fail in it, and every later use of the same objects",
 "No test lets an allocation fail or counts what is left; a size recorded before the memory is there, or a descriptor kept when decoding fails, shows only then.",
 [S+"image/image.cpp", S+"image/image.hpp", S+"image/image_from_file.cpp", S+"strategies/utils/count_zone.hpp", S+"ocr2/image_context.hpp", S+"ocr2/compute_image.hpp", S+"ocr2/glyphs.cpp", S+"container/trie.hpp", S+"spell/dictionary.cpp", S+"ocr2/disambiguous_with_dict.cpp", S+"ocr2/replacement.cpp", S+"utils/read_file.hpp"],
 [("kept buffers", S+"ocr2/image_context.hpp, "+S+"strategies/utils/count_zone.hpp"), ("files", S+"image/image_from_file.cpp"), ("tables", S+"ocr2/glyphs.cpp, "+S+"defined_loader.hpp")],
 ["results, errors, blocks allocated, open descriptors"])

prop("P41", "Threads that share tables get what one thread gets",
 "Threads that each keep scratch state, candidate lists and streams of their own may use the same glyph table, feature table, indexes, line information, replacement rules, dictionary and pictures at once: recognising, extracting features, segmenting and cropping, loading and writing tables and pictures, building and searching dictionaries, resolving lines, fonts and text and applying rules "
 "give in every thread exactly what they give when the threads run one after another, and no two threads access the same memory without synchronisation, one of them writing.",
 ["schedules", "inputs"], "every set of threads, operations and shared tables, and every interleaving of their accesses",
 "No test starts a thread; state hidden in a function or a table gives right results until two threads meet in it.",
 [S+"ocr2/compute_image.hpp", S+"ocr2/glyphs.hpp", S+"loader2/datas_loader.hpp", S+"strategies/utils/context.hpp", S+"ocr2/words_infos.hpp", S+"ocr2/disambiguous_with_dict.cpp", S+"spell/word_disambiguouser.hpp", S+"box_char/make_box_character.cpp", S+"image/image_from_file.cpp"],
 [("recognition", S+"ocr2/compute_image.hpp"), ("scratch state", S+"strategies/utils/context.hpp"), ("search", S+"spell/word_disambiguouser.hpp")],
 ["results of every operation in every thread; accesses to memory"])

prop("P42", "Moved, copied and exchanged objects hold exactly what was put in",
 "Pictures, glyph tables, glyph files, feature tables, dictionaries, trees, line positions, line information, both indexes, replacement rules, scratch state and scored candidate lists can be made, moved into a new or an existing object, copied and exchanged (where their kind allows it), kept in growing lists, changed and dropped in any order: every object then holds exactly what was last put into it, with the same words, numbers and values; "
 "copies are independent of one another, what was moved from can be assigned or dropped, an object made without contents holds nothing, and nothing is used after its end or released twice.",
 ["histories", "inputs"], "every sequence of making, moving, copying, exchanging, changing and dropping objects of every kind and contents",
 "The tests use each object where it was made; a pointer into the object itself, a forgotten member or memory owned twice only shows after a move.",
 [S+"image/image.hpp", S+"ocr2/glyphs.hpp", S+"loader2/glyphs_loader.hpp", S+"loader2/datas_loader.hpp", S+"spell/dictionary.hpp", S+"container/trie.hpp", S+"ocr2/words_infos.hpp", S+"ocr2/word_lines.hpp", S+"ocr2/data_indexes_by_words.hpp", S+"ocr2/indexes_ordered.hpp", S+"ocr2/replacement.hpp", S+"ocr2/probabilities.hpp", S+"strategies/utils/context.hpp"],
 [("word texts of the table", S+"ocr2/glyphs.hpp"), ("nodes referring to nodes", S+"container/trie.hpp"), ("candidates", S+"ocr2/probabilities.hpp swap")],
 ["contents of every object after every step"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
