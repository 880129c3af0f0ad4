S = "src/ppocr/"
L9 = r'''python3 - "$t" <<'EOF'
import sys
t = sys.argv[1]
# N separated columns, 5 rows
def pbm(n): return "P1\n%d 5\n" % (2 * n + 1) + ("0" + "10" * n + "\n") * 5
open(t + "/two", "w").write(pbm(2)); open(t + "/none", "w").write(pbm(0)); open(t + "/many", "w").write(pbm(40))
open(t + "/w2", "w").write("a\nb\n"); open(t + "/w0", "w").write(""); open(t + "/w40", "w").write("".join("w%d\n" % i for i in range(40)))
EOF
'''
# ---- P31
bug("b31-reopen", "P31", "main/write_datas.cpp", [("    std::cout << datas;\n", "    {\n        std::ofstream out(\"/dev/stdout\", std::ios::app);\n        if (out) {\n            out << datas;\n        }\n        else {\n            std::cout << datas;\n        }\n    }\n")],
  "an output that cannot be written in full", "the tool reports success for a table that is cut",
  sh=r'''printf '1 2 x-\n1\na f 1\n' > "$t/g"
"$B/write_datas" "$t/g" > "$t/o" && [ "$(head -1 "$t/o")" = 1 ] || exit 0
"$B/write_datas" "$t/g" > /dev/full && exit 1
exit 0
''')
bug("b31-partial", "P31", "main/show_glyphs.cpp", [("    unsigned x = 0;\n    Bounds const & bounds = img.bounds();\n", "    if (!std::cout.flush()) {\n        std::cout.clear();\n    }\n    unsigned x = 0;\n    Bounds const & bounds = img.bounds();\n")],
  "an output that fails for an image followed by an image without glyphs", "the failure of the first image is forgotten",
  sh=L9 + r'''"$B/show_glyphs" "$t/many" "$t/none" > /dev/full 2> /dev/null && exit 1
exit 0
''')
bug("b31-print", "P31", "main/ocr2_extract_text.cpp", [("      << \" ## result: \" << result\n", "      << \" ## result: \" << result << std::flush\n    ;\n    std::ostringstream counts;\n    counts\n"), ("      << std::endl\n    ;\n", "      << std::endl\n    ;\n    std::fputs(counts.str().c_str(), stdout);\n"), ("#include <iostream>\n", "#include <iostream>\n#include <sstream>\n#include <cstdio>\n")],
  "an output that has room for the text but not for the counts", "the counts are missing and the tool reports success",
  sh=r"""printf '1 2 x-\n1\na f 1\n' > "$t/g"; printf 'P1\n3 3\n000\n010\n000\n' > "$t/i"; "$B/write_datas" "$t/g" > "$t/d" || exit 1
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/i" > "$t/o" 2> /dev/null || exit 0
n=$(($(stat -c %s "$t/o") - 5))
python3 - "$n" "$t" <<'EOF'
import resource, subprocess, sys
n, t = int(sys.argv[1]), sys.argv[2]
import signal
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
r = subprocess.run(["_build/ppocr/gcc-13/release/ocr2_extract_text", t + "/g", t + "/d", t + "/i"], stdout=open(t + "/p", "wb"), stderr=subprocess.DEVNULL, preexec_fn=limit)
sys.exit(r.returncode == 0)
EOF
""")
# ---- P32
LEARN = r'''cp learning "$t/"; R="$PWD"; mkdir -p "$t/resources/glyphs" "$t/resources/datas"
python3 - "$t" <<'EOF'
import sys, os
t = sys.argv[1] + "/resources"
def pbm(n, rows=5): return "P1\n%d %d\n" % (2 * n + 1, rows) + ("0" + "10" * n + "\n") * rows
def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(s)
for a in ("latin", "cyrillic"):
    f = t + "/fonts/" + a
    put(f + "/letters", "a\nb\n")
    put(f + "/generated/one/1.pnm", pbm(2, 4)); put(f + "/generated/two/1.pnm", pbm(2, 7))
    put(f + "/mano/three/1.pbm", pbm(1, 9)); put(f + "/mano/three/1.txt", "x\n")
    put(f + "/mano/four/1.pbm", pbm(1, 11)); put(f + "/mano/four/1.txt", "y\n")
EOF
N="$t/resources/glyphs/normalized-glyphs-latin.txt"; T="$R/_build/ppocr/gcc-13/release"
run() { "$t/learning" "$T/write_glyphs" "$T/normalize_glyphs" "$T/write_datas" > /dev/null 2>&1; }
'''
bug("b32-empty", "P32", "main/write_glyphs.cpp", [("        throw std::runtime_error(std::string(textfilename) + \": \" + strerror(errno));\n    }\n\n", "        throw std::runtime_error(std::string(textfilename) + \": \" + strerror(errno));\n    }\n\n    if (file.peek() == std::ifstream::traits_type::eof()) {\n        return;\n    }\n\n")],
  "a word list that is empty beside an image that has glyphs", "the image is passed over without an error",
  sh=LEARN + r'''run && [ -s "$N" ] || exit 1
: > "$t/resources/fonts/latin/mano/three/1.txt"
run && exit 1
exit 0
''')
# ---- P33
bug("b33-lum", "P33", "main/show_glyphs.cpp", [("if (p == av[2] || *p != '\\0' || errno) {", "if (p == av[2] || errno) {")],
  "a luminance followed by other characters", "the rest is ignored",
  sh=L9 + r'''"$B/show_glyphs" -l 12 "$t/two" > /dev/null || exit 1
"$B/show_glyphs" -l 12x "$t/two" > /dev/null 2>&1 && exit 1
exit 0
''')
bug("b33-range", "P33", "main/write_glyphs.cpp", [("if (p == av[2] || *p != '\\0' || errno) {", "if (p == av[2] || *p != '\\0') {")],
  "a luminance of more digits than a number holds", "it is taken for the largest number",
  sh=L9 + r'''"$B/write_glyphs" -l 12 "$t/two" "$t/w2" f > /dev/null || exit 1
"$B/write_glyphs" -l 99999999999999999999999 "$t/two" "$t/w2" f > /dev/null 2>&1 && exit 1
exit 0
''')
bug("b33-three", "P33", "main/write_glyphs.cpp", [("    if ((ac - i_ac) < 4 || (ac - i_ac - 1) % 3) {", "    if ((ac - i_ac) < 4) {"), ("    for (++i_ac; i_ac < ac; i_ac += 3) {", "    for (++i_ac; i_ac + 2 < ac; i_ac += 3) {")],
  "one or two arguments too many", "they are ignored",
  sh=L9 + r'''"$B/write_glyphs" "$t/two" "$t/w2" f > /dev/null || exit 1
"$B/write_glyphs" "$t/two" "$t/w2" f "$t/two" > /dev/null 2>&1 && exit 1
exit 0
''')
bug("b33-second", "P33", "main/normalize_glyphs.cpp", [("        file >> glyphs;\n\n        if (!file.eof()) {", "        file >> glyphs;\n\n        if (!file.eof() && i + 1 == ac) {")],
  "a malformed file that is not the last one", "it is taken for shorter than it is",
  sh=r'''printf '1 2 x-\n1\na f 1\n' > "$t/g"; printf '1 2 x-\n1\nb f 1\nzz\n' > "$t/b"
"$B/normalize_glyphs" "$t/g" "$t/g" > /dev/null 2>&1 || exit 1
"$B/normalize_glyphs" "$t/b" "$t/g" > /dev/null 2>&1 && exit 1
exit 0
''')
bug("b33-info", "P33", "main/ocr2_extract_text.cpp", [("ac > 4 ? utils::load_from_file<ocr2::WWordsLines>(av[4]) : ocr2::WWordsLines()", "ac > 4 && std::ifstream(av[4]) ? utils::load_from_file<ocr2::WWordsLines>(av[4]) : ocr2::WWordsLines()"), ("int main(int ac, char **av)\n", "#include <fstream>\nint main(int ac, char **av)\n")],
  "a line position file that does not exist", "the text is read without it",
  sh=r'''printf '1 2 x-\n1\na f 1\n' > "$t/g"; printf 'P1\n3 3\n000\n010\n000\n' > "$t/i"; "$B/write_datas" "$t/g" > "$t/d" || exit 1
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/i" > /dev/null || exit 1
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/i" "$t/none" > /dev/null 2>&1 && exit 1
exit 0
''')
# ---- P34
CUT = r'''
#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/utils/read_file.hpp"
using namespace ppocr;
template<class T> int load(std::string const& f, std::string const& s) { // entries, or -1
    put(f, s);
    try { return int(utils::load_from_file<T>(f).size()); } catch (std::exception const&) { return -1; }
}
'''
bug("b34-font", "P34", S + "ocr2/glyphs.cpp", [("        while (i < n && (is >> word >> font).ignore(limit_max, '\\n')) {\n", "        while (i < n && is >> word) {\n            if (!(is >> font)) {\n                font.clear();\n                is.clear(std::ios::eofbit);\n            }\n            else {\n                is.ignore(limit_max, '\\n');\n            }\n")],
  "a glyph table cut between a word and its font", "the label is read with an empty font",
  cpp=CUT + r'''int main(int, char** av) { std::string f = std::string(av[1]) + "/f"; EXPECT(load<ocr2::Glyphs>(f, "2 1 x-\n1\na f 1\n") == 1); EXPECT(load<ocr2::Glyphs>(f, "2 1 x-\n1\na") == -1); return bad; }''')
bug("b34-base", "P34", S + "ocr2/word_lines.cpp", [("    if (is >> ascentline >> capline >> meanline >> baseline) {", "    if (is >> ascentline >> capline >> meanline) {\n        if (!(is >> baseline) && is.eof()) {\n            baseline = 0;\n            is.clear(std::ios::eofbit);\n        }")],
  "a line position file cut before the last number", "the entry is read with another base line",
  cpp=CUT + r'''int main(int, char** av) { std::string f = std::string(av[1]) + "/f"; EXPECT(load<ocr2::WWordsLines>(f, "a 0 1 2 2\nb 0 1 2 2\n") == 2); EXPECT(load<ocr2::WWordsLines>(f, "a 0 1 2 2\nb 0 1 2") == -1); return bad; }''')
