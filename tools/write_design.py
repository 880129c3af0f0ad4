#!/usr/bin/env python3
"""Writes the per-property table of DESIGN.md from properties.jsonl, cases.json and the harnesses' own descriptions.
The rest of DESIGN.md is written by hand in tools/design_head.md and tools/design_tail.md."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
D = json.load(open(os.path.join(V, "tools", "design_notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cases = json.load(open(os.path.join(V, "cases.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Per property", ""]
for p in props:
    i = p["id"]
    src = open(os.path.join(V, "props", i + ".cpp")).read()
    m = re.search(r"PropertyInfo const property_info\{(.*?)\w+\};|PropertyInfo const property_info\{(.*?)\};", src, re.S)
    gen = " ".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1) or m.group(2))[1:])
    gen = re.sub(r"\s+", " ", gen)
    out += ["### %s — %s" % (i, p["title"]), "",
            "- **Generated:** " + gen + ".",
            "- **Oracle:** " + D[i]["oracle"],
            "- **Why the tests cannot:** " + p["why_tests_cant"],
            "- **Cost and bounds:** quick %d cases, thorough up to %d cases within 700 s%s." % (
                cases[i]["quick"], cases[i]["thorough"], " (each case starts the tools)" if cases[i].get("tools") else " plus a coverage-guided search"), ""]
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
R = json.load(open(os.path.join(V, "tools", "seeded_results.json")))
out += ["| Change | What it breaks | Result |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s |" % (b, m["what_it_breaks"].replace("|", "/").replace("\n", " "), "; ".join("%s %s" % kv for kv in sorted(R.get(b, {}).items())) or "not run"))
out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
