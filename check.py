#!/usr/bin/env python3
"""Runs the generated-input search that decides one property of /repo.

  check.py P01            run the check (VERIF_TIER=quick|thorough, VERIF_SEED=<n>)
  check.py --setup        build everything once (objects are cached by content)
  check.py --replay FILE  rebuild from /repo's working tree and run one recorded case
  check.py --list         list the properties that have a check

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check itself could not run.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8
TOOLS = ["write_glyphs", "normalize_glyphs", "write_datas", "show_glyphs", "make_trie_dictionary", "ocr2_extract_text"]

# cases generated by the quick and the thorough tier, and whether the property drives the command line tools
CASES = json.load(open(os.path.join(VERIF, "cases.json")))

UB = "signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,vla-bound,float-cast-overflow"
BASE = ["-std=c++17", "-DNDEBUG", "-g1", "-w", "-fno-omit-frame-pointer"]
# a vector's unused room is out of bounds
SAN = ["-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR"]
GCC = ("g++", BASE + ["-O1"] + SAN)
TSAN = ("g++", BASE + ["-O1", "-fsanitize=thread"])
FUZZ = ("clang++", BASE + ["-O1", "-DPBT_FUZZ"] + SAN + ["-fsanitize=fuzzer-no-link"])
# the reference model is trusted code: no need to instrument the engine for coverage


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR:", msg)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def lib_sources():
    text = read(os.path.join(REPO, "Jamroot")).decode(errors="replace")
    out = []
    for m in re.finditer(r"src/ppocr/[\w/]+\.cpp(?!\.o)\b", text):
        p = m.group(0)
        if p not in out and os.path.exists(os.path.join(REPO, p)):
            out.append(p)
    return out


def header_state():
    parts = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".cpp"):
                p = os.path.join(root, f)
                parts.append(os.path.relpath(p, REPO).encode())
                parts.append(read(p))
    return sha(*parts)


def verif_state():
    parts = []
    for d in ("pbt", "props"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            if f.endswith(".hpp"):
                parts.append(read(os.path.join(VERIF, d, f)))
    return sha(*parts)


class Builder:
    def __init__(self):
        self.hdr = header_state()
        self.vhdr = verif_state()
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.jobs = {}

    def compile(self, src, tc):
        cxx, flags = tc
        inrepo = src.startswith(REPO + "/")
        flags = list(flags)
        if inrepo:
            flags.append("-fno-rtti")
        inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "pbt")]
        # every byte of /repo's headers counts: a stale object can never hide a change
        key = sha(cxx, " ".join(flags + inc), src, read(src), self.hdr, "" if inrepo else self.vhdr)
        obj = os.path.join(BUILD, "obj", key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp.o" % os.getpid()
            r = subprocess.run([cxx] + flags + inc + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("cannot compile %s\n%s" % (src, r.stdout[-4000:]))
            os.replace(tmp, obj)
        else:
            os.utime(obj)
        return obj

    def objs(self, srcs, tc):
        # one job per source, however many programs want it
        for s in srcs:
            k = (s, tc[0], *tc[1])
            if k not in self.jobs:
                self.jobs[k] = self.pool.submit(self.compile, s, tc)
        return [self.jobs[(s, tc[0], *tc[1])] for s in srcs]

    def link(self, name, futs, tc, extra=()):
        objs = [f.result() for f in futs]
        cxx, flags = tc
        san = [f for f in flags if f.startswith("-fsanitize=")] if tc is TSAN else SAN
        key = sha(cxx, " ".join(san), " ".join(extra), *objs)
        out = os.path.join(BUILD, "bin", name + "-" + key)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([cxx] + objs + san + list(extra) + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("cannot link %s\n%s" % (name, r.stdout[-4000:]))
            os.replace(tmp, out)
        else:
            os.utime(out)
        return out

    def lib(self, tc):
        return self.objs([os.path.join(REPO, s) for s in lib_sources()], tc)

    def build(self, props, tools=True, fuzz=False):
        """returns {prop: binary}, {tool: binary}"""
        ptc = {p: TSAN if CASES[p].get("threads") else GCC for p in props}
        pfut = {p: self.objs([os.path.join(VERIF, "props", p + ".cpp"), os.path.join(VERIF, "pbt", "pbt.cpp")], ptc[p]) + self.lib(ptc[p]) for p in props}
        tfut = {t: self.objs([os.path.join(REPO, "main", t + ".cpp"), os.path.join(VERIF, "pbt", "server.cpp")], GCC) for t in TOOLS} if tools else {}
        ffut = {}
        if fuzz:
            flib = self.lib(FUZZ)
            ffut = {p: self.objs([os.path.join(VERIF, "props", p + ".cpp"), os.path.join(VERIF, "pbt", "pbt.cpp")], FUZZ) + flib for p in props}
        with cf.ThreadPoolExecutor(JOBS) as lp:
            tb = {t: lp.submit(self.link, "tool_" + t, f + self.lib(GCC), GCC, ("-Wl,--wrap=main",)) for t, f in tfut.items()}
            pb = {p: lp.submit(self.link, p, f, ptc[p], tuple(CASES[p].get("link", ()))) for p, f in pfut.items()}
            fb = {p: lp.submit(self.link, p + "_fuzz", f, FUZZ, ("-fsanitize=fuzzer",) + tuple(CASES[p].get("link", ()))) for p, f in ffut.items()}
            return ({p: f.result() for p, f in pb.items()}, {t: f.result() for t, f in tb.items()}, {p: f.result() for p, f in fb.items()})


def prune():
    """keeps the object cache small"""
    for d in ("obj", "bin"):
        d = os.path.join(BUILD, d)
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while fs and total > 1500 * 1000 * 1000:
            total -= os.path.getsize(fs[0])
            os.unlink(fs.pop(0))


def environment(scratch, tools):
    env = dict(os.environ)
    env["PBT_SCRATCH"] = scratch
    env["PBT_REPO"] = REPO
    bind = os.path.join(scratch, "bin")
    os.makedirs(bind, exist_ok=True)
    for t, p in tools.items():
        os.symlink(p, os.path.join(bind, t))
    env["PBT_BIN"] = bind
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=2500:hard_rss_limit_mb=3300:"
                           "max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=1:symbolize=1:quarantine_size_mb=32:malloc_context_size=12")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_signal_unsafe=0:history_size=4"
    env["LC_ALL"] = "C"
    return env


def sanitized(binary, env, scratch, pid):
    """ThreadSanitizer needs an address space it knows: without randomisation if need be, or else without it"""
    def runs(b):
        return subprocess.run([b, "run", "1", "0", "1", "0", "5", os.path.join(scratch, "probe")], env=env, stdin=subprocess.DEVNULL,
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    if all(runs(binary) for _ in range(8)):
        return binary
    wrapper = os.path.join(scratch, "fixed-" + pid)
    with open(wrapper, "w") as f:
        f.write('#!/bin/sh\nexec setarch -R "%s" "$@"\n' % binary)
    os.chmod(wrapper, 0o755)
    if all(runs(wrapper) for _ in range(4)):
        return wrapper
    log("ThreadSanitizer cannot run here: only results are compared")
    CASES[pid]["threads"] = False
    try:
        return Builder().build([pid], tools=False)[0][pid]
    except RuntimeError as e:
        die(str(e))


def tail(path, n=4000):
    try:
        return read(path)[-n:].decode(errors="replace")
    except OSError:
        return ""


def crash_text(t):
    keep = [l for l in t.splitlines() if re.search(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error|SUMMARY|^\s*#\d+ .*(/repo|ppocr|props/)|harness:|FAILED|Assertion|terminate|what\(\)", l)]
    return "\n".join(keep[:24]) or t[-800:]


class Found(Exception):
    def __init__(self, message, replay_lines=None, choices=None):
        self.message, self.choices = message, choices


def run_shards(binary, env, seed, cases, budget, scratch, nshards=JOBS):
    """returns (merged stats, failure or None); failure = (message, choices file, shard)"""
    procs = []
    for s in range(nshards):
        prefix = os.path.join(scratch, "shard%d" % s)
        err = open(prefix + ".err", "wb")
        p = subprocess.Popen([binary, "run", str(seed), str(s), str(nshards), str(cases), str(budget), prefix],
                             env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
        procs.append((s, p, prefix))
    failure = None
    deadline = time.time() + budget + 150
    alive = list(procs)
    killed = False
    while alive:
        for e in list(alive):
            s, p, prefix = e
            rc = p.poll()
            if rc is None:
                continue
            alive.remove(e)
            if rc == 0:
                continue
            if rc == 2:
                if not failure and not killed:
                    stop(alive)
                    die("shard %d could not run:\n%s" % (s, tail(prefix + ".err")))
                continue
            if failure or killed:
                continue
            choices = prefix + ".choices"
            if rc == 3:
                shutil.copy(prefix + ".fail", choices)
                msg = "\n".join(l[2:] for l in tail(prefix + ".fail", 1 << 20).splitlines() if l.startswith("# "))
            elif rc == -signal.SIGKILL:
                stop(alive)
                die("shard %d was killed from outside" % s)
            else:
                r = subprocess.run([binary, "dump", prefix + ".shm", choices], env=env)
                if r.returncode:
                    stop(alive)
                    die("shard %d died with status %d and left no case:\n%s" % (s, rc, tail(prefix + ".err")))
                what = "endless loop" if rc == 5 else "the process died (status %d)" % rc
                msg = what + "\n" + crash_text(tail(prefix + ".err", 1 << 16))
            failure = (msg, choices, s)
            killed = True
            stop(alive)
        if time.time() > deadline and alive:
            stop(alive)
            killed = True
            if not failure:
                die("the shards did not end in time")
        time.sleep(0.02)
    stats = {"evaluations": 0, "discarded": 0, "checks": 0, "nontrivial": 0, "labels": {}, "samples": [], "rule": "", "out_of_time": False}
    hashes = set()
    for s, p, prefix in procs:
        try:
            j = json.loads(read(prefix + ".json").decode(errors="replace"))
        except (OSError, ValueError) as e:
            if not failure:
                die("shard %d left no statistics: %s" % (s, e))
            continue
        for k in ("evaluations", "discarded", "checks", "nontrivial"):
            stats[k] += j[k]
        for k, v in j["labels"].items():
            stats["labels"][k] = stats["labels"].get(k, 0) + v
        stats["samples"] += j["samples"]
        stats["rule"] = j["rule"]
        stats["out_of_time"] |= j["out_of_time"]
        b = read(prefix + ".hashes")
        hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    stats["distinct"] = len(hashes)
    return stats, failure


def stop(procs):
    for _, p, _ in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    for _, p, _ in procs:
        p.wait()


def replays(binary, env, choices, scratch, times=3):
    """(number of failing runs, text of the last failure)"""
    n, text = 0, ""
    for _ in range(times):
        out = os.path.join(scratch, "replay.out")
        with open(out, "wb") as o:
            r = subprocess.run([binary, "replay", choices], env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=o)
        if r.returncode not in (0, 2, -signal.SIGKILL):
            n += 1
            t = tail(out, 1 << 16)
            m = re.search(r"^FAILED: (.*)", t, re.M | re.S)
            text = m.group(1).strip() if m and r.returncode == 3 else crash_text(t)
            if r.returncode == 5:  # an endless loop is not run again
                break
    return n, text


def fuzz(binary, env, pid, seed, seconds, scratch):
    """coverage-guided search; returns (stats, failure)"""
    procs = []
    base = os.path.join(scratch, "fuzz")
    os.makedirs(base)
    corpus = os.path.join(base, "corpus")
    os.makedirs(corpus)
    for s in range(JOBS):
        d = os.path.join(base, str(s))
        os.makedirs(d)
        e = dict(env)
        e["PBT_FUZZ_LOG"] = os.path.join(d, "log")
        out = open(os.path.join(d, "out"), "wb")
        p = subprocess.Popen([binary, corpus, "-seed=%d" % (seed * 100 + s + 1), "-max_total_time=%d" % seconds, "-max_len=3000", "-reload=1", "-timeout=60",
                              "-rss_limit_mb=3300", "-len_control=40", "-print_final_stats=1", "-artifact_prefix=" + d + "/", "-verbosity=1"],
                             env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True)
        procs.append((s, p, d))
    failure = None
    alive = list(procs)
    end = time.time() + seconds + 120
    while alive:
        for x in list(alive):
            s, p, d = x
            rc = p.poll()
            if rc is None:
                continue
            alive.remove(x)
            if rc != 0 and not failure and rc != -signal.SIGKILL:
                shm = [f for f in os.listdir(d) if f.endswith(".shm")]
                if not shm:
                    stop(alive)
                    die("a fuzzer process could not run:\n" + tail(os.path.join(d, "out")))
                failure = (crash_text(tail(os.path.join(d, "out"), 1 << 16)), os.path.join(d, shm[0]), s)
                stop(alive)
                alive = []
                break
        if time.time() > end and alive:
            stop(alive)
            alive = []
        time.sleep(0.1)
    execs = cov = 0
    for s, p, d in procs:
        t = tail(os.path.join(d, "out"), 1 << 16)
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", t)
        execs += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+) ft: (\d+)", t)
        if m:
            cov = max(cov, int(m[-1][0]))
    return {"executions": execs, "edges_covered": cov, "corpus": len(os.listdir(corpus)), "seconds": seconds}, failure


def main():
    args = sys.argv[1:]
    if not args:
        die("usage: check.py P01 | --setup | --replay FILE | --list")
    props = sorted(p[:-4] for p in os.listdir(os.path.join(VERIF, "props")) if re.match(r"P\d+\.cpp$", p))
    if args[0] == "--list":
        log("\n".join(props))
        return 0
    if args[0] == "--setup":
        try:
            Builder().build(props)
        except RuntimeError as e:
            die(str(e))
        return 0
    if args[0] == "--replay":
        first = read(args[1]).split(b"\n")[0].decode().split()
        pid = first[1]
    else:
        pid = args[0]
    if pid not in props:
        die("no check for " + pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = CASES[pid]
    thorough = tier == "thorough"
    try:
        b, tools, fb = Builder().build([pid], tools=conf.get("tools", False), fuzz=thorough and args[0] != "--replay" and not conf.get("tools", False) and not conf.get("threads", False))
    except RuntimeError as e:
        die(str(e))
    prune()
    binary = b[pid]
    t_build = time.time() - t0
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="ppocr-check-%s-" % pid, dir=base)
    try:
        env = environment(scratch, tools)
        if conf.get("threads"):
            binary = sanitized(binary, env, scratch, pid)
        if args[0] == "--replay":
            if len(first) > 2 and first[2] == "SHARD":
                sd, sh, n, cases = (int(x) for x in first[3:7])
                r = subprocess.run([binary, "run", str(sd), str(sh), str(n), str(cases), "3600", os.path.join(scratch, "r")], env=env)
                log("shard run ended with status", r.returncode)
                log(tail(os.path.join(scratch, "r.fail"))[:3000])
            else:
                r = subprocess.run([binary, "describe", args[1]], env=env)
            return 1 if r.returncode else 0
        return check(pid, tier, seed, conf, binary, fb.get(pid), env, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier, seed, conf, binary, fuzzbin, env, scratch, t0, t_build):
    thorough = tier == "thorough"
    cases = conf["thorough" if thorough else "quick"]
    stats, failure = run_shards(binary, env, seed, cases, 700 if thorough else 100, scratch)
    fstats = None
    if thorough and not failure and fuzzbin:
        fstats, ff = fuzz(fuzzbin, env, pid, seed, conf.get("fuzz", 120), scratch)
        if ff:
            choices = os.path.join(scratch, "fuzz.choices")
            r = subprocess.run([binary, "dump", ff[1], choices], env=env)
            if r.returncode:
                die("the fuzzer stopped without leaving a case:\n" + ff[0])
            failure = ("found by the coverage-guided search\n" + ff[0], choices, None)
    replay_path = None
    if failure:
        msg, choices, shard = failure
        n, text = replays(binary, env, choices, scratch)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", "%s-seed%d.replay" % (pid, seed))
        if n:
            small = os.path.join(scratch, "small.choices")
            subprocess.run([binary, "shrink", choices, small, "25"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            n2, text2 = replays(binary, env, small, scratch, 2) if os.path.exists(small) else (0, "")
            if n2:
                choices, text = small, text2
            d = subprocess.run([binary, "describe", choices], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
            log("violated: " + text[:3000])
            log("minimal case:\n" + d[:3000])
            body = read(choices).decode()
            head, rest = body.split("\n", 1)
            with open(replay_path, "w") as f:
                f.write(head + "\n" + "".join("# %s\n" % l for l in text[:4000].splitlines()) + rest)
        else:
            # depends on earlier cases of the same process: the whole shard is the replay
            again = 0
            if shard is not None:
                for k in range(2):
                    prefix = os.path.join(scratch, "again%d" % k)
                    with open(prefix + ".err", "wb") as o:
                        r = subprocess.run([binary, "run", str(seed), str(shard), str(JOBS), str(cases), "300", prefix], env=env, stdout=o, stderr=o)
                    again += r.returncode not in (0, 2)
            log("violated (%s): %s" % ("only after the earlier cases of the run" if again else "seen once, not reproduced by itself", msg[:3000]))
            with open(replay_path, "w") as f:
                f.write("PBT1 %s SHARD %d %d %d %d\n" % (pid, seed, shard or 0, JOBS, cases))
                f.write("".join("# %s\n" % l for l in msg[:4000].splitlines()))
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": stats["distinct"],
            "rule": stats["rule"],
            "samples": stats["samples"][:10] or ["(stopped before a sample was due)"],
            "comparisons": stats["checks"],
            "discarded": stats["discarded"],
            "cases_requested": cases,
            "stopped_by_time": stats["out_of_time"],
            "histogram": stats["labels"],
        },
        "assumptions": ["g++ 13 -O1 with AddressSanitizer and UBSan as memory oracle", "the reference model in /verif/pbt/ref.hpp states the property"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failure else 0,
    }
    if fstats:
        ev["coverage"]["coverage_guided"] = fstats
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %d discarded; build %.1fs, total %.1fs%s" % (
        pid, tier, seed, stats["evaluations"], stats["distinct"], stats["checks"], stats["discarded"], t_build, time.time() - t0,
        "; fuzz %(executions)d runs, %(edges_covered)d edges" % fstats if fstats else ""))
    if failure:
        log("VIOLATION property=%s replay=%s" % (pid, replay_path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
