#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: turns bug definitions into seeded/<id>/ and confirms each in a scratch copy of /repo.
A definition: bug(id, property, file, [(old, new)...], needs, breaks, cpp=... or sh=...).
Kept only if it applies, builds, passes the 18 tests, and its demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
R = "/repo"
bugs = []
PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include "ppocr/image/image.hpp"
static int bad;
#define EXPECT(x) do { if (!(x)) { std::printf("not so: %s (line %d)\n", #x, __LINE__); bad = 1; } } while (0)
static ppocr::Image pic(std::string const& rows) { // "x-/-x"
    unsigned w = unsigned(std::min(rows.find('/'), rows.size())), n = 0;
    std::unique_ptr<ppocr::Pixel[]> p(new ppocr::Pixel[rows.size() + 1]);
    for (char c : rows) if (c != '/') p[n++] = c;
    return ppocr::Image(ppocr::Bounds(w, n / w), std::move(p));
}
static void put(std::string const& f, std::string const& s) { std::ofstream(f, std::ios::binary) << s; }
'''
SH = '''#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
B=_build/ppocr/gcc-13/release
'''
CPP = SH + '''g++ -std=c++17 -O1 -g -DNDEBUG %s -Isrc "$here/demo.cpp" %s -o "$t/demo" || exit 9
timeout 120 "$t/demo" "$t"
'''
def bug(id, prop, file, edits, needs, breaks, cpp=None, sh=None, asan=False):
    bugs.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, cpp=cpp, sh=sh, asan=asan))

def sh(cmd, cwd=R, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def clean():
    sh("git checkout -q -- .")

def make(b):
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    clean()
    files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
    for f, (old, new) in zip(files, b["edits"]):
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
    clean()
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if b["cpp"]:
        open(os.path.join(d, "demo.cpp"), "w").write(PRE + b["cpp"])
        demo = CPP % (("-fsanitize=address,undefined", "$(grep -o '^ *src/ppocr/[A-Za-z0-9_/]*[.]cpp$' Jamroot | sort -u)") if b["asan"] else ("", '"$B"/ppocr_*.cpp.o'))
    else:
        demo = SH + b["sh"]
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(demo)
    os.chmod(p, 0o755)
    return None

def demo(b):
    return sh("bash %s/seeded/%s/demo.sh" % (V, b["id"]), timeout=400)

def main():
    exec(open(sys.argv[1]).read(), globals())
    want = sys.argv[2:]
    todo = [b for b in bugs if not want or b["id"] in want]
    errs = {}
    for b in todo:
        e = make(b)
        if e: errs[b["id"]] = e
    sh("bash /opt/vp/build.sh")
    for b in todo:
        if b["id"] in errs: continue
        r = demo(b)
        if r.returncode: errs[b["id"]] = "demo fails on the unchanged tree: " + r.stdout[-600:]
    for b in todo:
        if b["id"] in errs:
            print(b["id"], "DROPPED:", errs[b["id"]], flush=True)
            continue
        try:
            sh("git apply %s/seeded/%s/patch.diff" % (V, b["id"]))
            r = sh("bash /opt/vp/test.sh /tmp/plant.json")
            res = json.load(open("/tmp/plant.json"))
            if len(res["passed"]) != 18 or res["failed"]:
                errs[b["id"]] = "tests: passed %d failed %s\n%s" % (len(res["passed"]), res["failed"], r.stdout[-1500:] if len(res["passed"]) < 15 else "")
            else:
                r = demo(b)
                if r.returncode in (0, 9): errs[b["id"]] = "demo ends with %d on the changed tree %s" % (r.returncode, r.stdout[-400:])
                else: print(b["id"], "confirmed; demo:", r.stdout.strip()[:150].replace("\n", " | "), flush=True)
        finally:
            clean()
        if b["id"] in errs:
            print(b["id"], "DROPPED:", errs[b["id"]], flush=True)
    for i in errs:
        shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
    sh("bash /opt/vp/build.sh")

main()
