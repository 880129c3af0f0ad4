#!/usr/bin/env python3
"""mutate.py OUT.jsonl [workers] [seconds] [file-substring...]: small changes to /repo's sources, one at a time, each in a worker's copy, and
the checks of the properties anchored in the file (one shard first, all shards for those that are left). Survivors are for reading."""
import json, os, random, re, shutil, subprocess, sys, threading, time, hashlib
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
OUT, NW, SECS = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 5, int(sys.argv[3]) if len(sys.argv) > 3 else 3600
ONLY = sys.argv[4:]
BASE = "/tmp/mut"
T0 = time.time()

def files():
    lib = [s for s in check.lib_sources()]
    r = set(lib) | {"main/%s.cpp" % t for t in check.TOOLS}
    dep = subprocess.run(["g++", "-std=c++17", "-MM", "-I/repo/src"] + ["/repo/" + s for s in r], stdout=subprocess.PIPE, text=True).stdout
    for m in re.finditer(r"/repo/(\S+\.(?:hpp|cpp))", dep): r.add(os.path.normpath(m.group(1)))
    for d, _, fs in os.walk("/repo/src/ppocr/ocr2"):
        for f in fs:
            if f.endswith(".hpp"): r.add(os.path.relpath(os.path.join(d, f), "/repo"))
    return sorted(r)

REL = {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<", ">="], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}
OPS = dict(REL)
OPS.update({"&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["/", "+"], "/": ["*"], "%": ["/"], "+=": ["-="], "-=": ["+="], "++": ["--"], "--": ["++"], "|": ["&"], "&": ["|"], "<<": [">>"], ">>": ["<<"]})
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d[\w.]*|<<=|>>=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\+\+|--|->|::|<<|>>|.')
def narrow(f):
    """narrower integer types"""
    out = []
    for n, l in enumerate(open("/repo/" + f).read().split("\n")):
        if l.strip().startswith(("*", "//", "#", "/*")) or "static_assert" in l: continue
        for m in re.finditer(r"\b(unsigned int|unsigned|std::size_t|size_t|int|uint32_t|std::uint32_t|std::ptrdiff_t)\b(?! (char|short|long)\b)(?=[ >){&*])", l):
            for t in ((("unsigned char",) if os.environ.get("NARROW") != "short" else ()) + ("unsigned short",)) if m.group(1) != "int" and "ptr" not in m.group(1) else ((("signed char",) if os.environ.get("NARROW") != "short" else ()) + ("short",)):
                out.append((f, n, l, l[:m.start()] + t + l[m.end():], m.group(1) + " -> " + t))
    return out
def mutants(f):
    if os.environ.get("NARROW"): return narrow(f)
    src = open("/repo/" + f).read()
    lines = src.split("\n")
    out, comment = [], False
    for n, l in enumerate(lines):
        code = l
        if comment:
            if "*/" in code: comment = False
            continue
        if "/*" in code:
            if "*/" not in code: comment = True
            continue
        code = code.split("//")[0]
        st = code.strip()
        if not st or st.startswith(("#", "template", "using", "namespace", "static_assert", "assert(", "std::cerr", "static_cast", "public", "private", "friend", "typedef", "class ", "struct ")): continue
        def put(new, what): out.append((f, n, l, new, what))
        toks = [(m.group(0), m.start(), m.end()) for m in TOK.finditer(code)]
        for i, (t, a, b) in enumerate(toks):
            prev = code[a-1] if a else " "
            nxt = code[b] if b < len(code) else " "
            if t in OPS:
                sp = prev == " " and nxt == " "
                if t in ("<", ">") and not sp: continue
                if t in ("*", "&", "+", "-", "<<", ">>") and not sp: continue
                if t == "&" and re.search(r"(stream|Image|Bounds|auto|View|Views|Glyph|Glyphs|string|other) $", code[:a]): continue
                if t == "&" and re.search(r"\bconst & \w", code[max(0, a-8):b+2]): continue
                if t in ("<<", ">>") and re.search(r"cout|cerr|\bos\b|\bout\b|\bis\b|\bin\b|file|istream|ostream", code): continue
                for o in OPS[t]: put(code[:a] + o + code[b:], t + " -> " + o)
            elif re.fullmatch(r"\d+u?", t):
                v = int(t.rstrip("u")); u = "u" if t.endswith("u") else ""
                put(code[:a] + str(v + 1) + u + code[b:], t + " -> " + str(v + 1))
                if v: put(code[:a] + str(v - 1) + u + code[b:], t + " -> " + str(v - 1))
            elif t in ("true", "false"): put(code[:a] + ("false" if t == "true" else "true") + code[b:], t)
            elif t in ("min", "max"): put(code[:a] + ("max" if t == "min" else "min") + code[b:], t)
            elif t == "break": put(code[:a] + "continue" + code[b:], t)
            elif t == "continue": put(code[:a] + "break" + code[b:], t)
            elif t in ("lower_bound", "upper_bound"): put(code[:a] + ("upper_bound" if t[0] == "l" else "lower_bound") + code[b:], t)
            elif t == "!" and nxt != "=": put(code[:a] + code[b:], "drop !")
            elif t in ("width", "height"): put(code[:a] + ("height" if t == "width" else "width") + code[b:], t)
            elif t in ("x", "y") and nxt == "(": put(code[:a] + ("y" if t == "x" else "x") + code[b:], t)
            elif t == "unsigned" and False: pass
        m = re.match(r"^(\s*)(?:if|while) \((.*)\) \{\s*$", code)
        if m:
            k = "if" if "if" in st[:2] else "while"
            if k == "if": put(code[:code.index("(")] + "(true || (" + m.group(2) + ")) {", "if true")
            put(code[:code.index("(")] + "(false && (" + m.group(2) + ")) {", k + " false")
        if st.endswith(";") and not st.startswith(("return", "break", "continue", "}", "{", "const", "auto", "unsigned", "int ", "char", "std::", "using", "size_t", "bool", "double", "Image", "Bounds")) and code.count("(") == code.count(")") and not re.match(r"^[\w:<>,&* ]+ \w+( = .*|\{.*\}|\(.*\))?;$", st):
            put(code[:len(code) - len(code.lstrip())] + ";", "drop statement")
    return out

def prepare(k):
    d = "%s/%d" % (BASE, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/b")
    r = d + "/repo"
    os.makedirs(r)
    for x in ("src", "main", "learning", "Jamroot"):
        subprocess.run(["cp", "-a", "/repo/" + x, r + "/"], check=True)
    for x in ("resources", "tests", "images"): os.symlink("/repo/" + x, r + "/" + x)
    lib = check.lib_sources()
    f = open(d + "/build.ninja", "w")
    flags = " ".join(check.BASE + ["-O1"] + check.SAN)
    f.write("rule cc\n command = g++ -MD -MF $out.d %s $extra -I%s/src -I%s/pbt -c $in -o $out\n depfile = $out.d\n deps = gcc\nrule ld\n command = g++ $in %s $extra -o $out\n" % (flags, r, V, " ".join(check.SAN)))
    def obj(src, extra=""):
        o = "b/" + src.replace("/", "_") + ".o"
        f.write("build %s: cc %s\n extra = %s\n" % (o, src, extra))
        return o
    lo = [obj(r + "/" + s, "-fno-rtti") for s in lib]
    eng, srv = obj(V + "/pbt/pbt.cpp"), obj(V + "/pbt/server.cpp")
    for p in props:
        f.write("build b/%s: ld %s %s\n" % (p["id"], obj(V + "/props/%s.cpp" % p["id"]), " ".join([eng] + lo)))
    os.makedirs(d + "/b/bin")
    for t in check.TOOLS:
        f.write("build b/bin/%s: ld %s %s\n extra = -Wl,--wrap=main\n" % (t, obj(r + "/main/%s.cpp" % t, "-fno-rtti"), " ".join([srv] + lo)))
    f.write("build tools: phony " + " ".join("b/bin/" + t for t in check.TOOLS) + "\n")
    f.close()
    return d

def ninja(d, targets):
    return subprocess.run(["nice", "-n", "15", "ninja", "-C", d, "-j", "2"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def run(d, p, shard, n=24):
    scratch = "/dev/shm/mut-%s-%s-%d" % (d.split("/")[-1], p, shard)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    os.environ["PBT_REPO"] = d + "/repo"
    env = check.environment(scratch, {})
    env["PBT_REPO"] = d + "/repo"
    env["PBT_BIN"] = d + "/b/bin"
    try:
        with open(scratch + "/err", "wb") as o:
            r = subprocess.run(["nice", "-n", "15", d + "/b/" + p, "run", "1", str(shard), str(n), str(check.CASES[p]["quick"]), "100", scratch + "/p"], env=env, stdout=o, stderr=o, timeout=400)
            rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 77
    shutil.rmtree(scratch, ignore_errors=True)
    return rc

def related(f):
    r = [p["id"] for p in props if any(f == a or os.path.splitext(f)[0] == os.path.splitext(a)[0] for a in p["anchors"]["files"])]
    return r
ORDER = {"strategies": ["P05", "P06", "P07", "P08", "P09", "P14"], "image": ["P03", "P01", "P02", "P04", "P05", "P06", "P07"], "ocr2": ["P16", "P17", "P18", "P15", "P27"], "spell": ["P22", "P23", "P24"], "loader2": ["P10", "P11", "P08", "P28"]}
def plan(f):
    r = related(f)
    for k, v in ORDER.items():
        if "/" + k + "/" in f:
            r += [p for p in v if p not in r]
    if not r: r = ["P16", "P08", "P11", "P24", "P18"]
    return r

lock = threading.Lock()
def work(k, todo, done):
    d = prepare(k)
    while time.time() - T0 < SECS:
        with lock:
            if not todo: break
            f, n, old, new, what = todo.pop()
        path = d + "/repo/" + f
        src = open(path).read()
        ls = src.split("\n")
        assert ls[n] == old
        ls[n] = new
        open(path, "w").write("\n".join(ls))
        res = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "what": what}
        t = time.time()
        try:
            ran = []
            state = "survived"
            for p in plan(f):
                tools = check.CASES[p].get("tools")
                b = ninja(d, ["b/" + p] + (["tools"] if tools else []))
                if b.returncode:
                    state = "does not compile"
                    break
                rc = run(d, p, 0)
                ran.append(p)
                if rc not in (0, 2):
                    state = "caught " + p
                    break
            res["state"], res["ran"] = state, ran
        finally:
            open(path, "w").write(src)
        res["secs"] = round(time.time() - t)
        with lock:
            done.append(res)
            with open(OUT, "a") as o: o.write(json.dumps(res) + "\n")

def main():
    todo = [m for f in files() if not ONLY or any(s in f for s in ONLY) for m in mutants(f)]
    seen = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l); seen.add((r["file"], r["line"], r["new"]))
    todo = [m for m in todo if (m[0], m[1] + 1, m[3].strip()) not in seen]
    random.Random(7).shuffle(todo)
    rank, at = {}, {}
    for l in (open(OUT) if os.path.exists(OUT) else []):
        r = json.loads(l); at[r["file"], r["line"] - 1] = at.get((r["file"], r["line"] - 1), 0) + 1
    for m in todo: # one change per line first
        at[m[0], m[1]] = rank[m] = at.get((m[0], m[1]), 0) + 1
    todo.sort(key=lambda m: -rank[m])
    print(len(todo), "mutants", flush=True)
    if os.environ.get("LIST"):
        for m in todo: print(m[0], m[1] + 1, m[4], "|", m[3].strip())
        return
    done = []
    th = [threading.Thread(target=work, args=(k, todo, done)) for k in range(NW)]
    for t in th: t.start()
    for t in th: t.join()
    c = {}
    for r in done: c[r["state"].split()[0]] = c.get(r["state"].split()[0], 0) + 1
    print(c)
main()
