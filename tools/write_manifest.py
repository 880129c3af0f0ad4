#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and cases.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cases = json.load(open(os.path.join(V, "cases.json")))
NOTE = {
 "P01": "Differential against an independent decoder over encoded pictures of every kind, odd widths, comments and thresholds; bounded by picture size (mostly <= 40x40).",
 "P02": "Differential against an independent grammar of the file format over truncations, extensions, flips, header edits and raw bytes; ASan/UBSan decide memory safety; declared areas between 64 MB and 2^32 are outside the domain.",
 "P03": "Pixel-by-pixel model and order axioms on pairs and triples.",
 "P04": "Model of the contact rule plus the invariants (disjoint, tight, complete) over the whole scan.",
 "P12": "The tool itself, built with ASan/UBSan, against a set model.",
 "P13": "The tools themselves, built with ASan/UBSan, against the segmentation model.",
 "P14": "The tool itself, built with ASan/UBSan, against the feature model.",
 "P16": "Differential against an exhaustive comparison with every glyph; scores within 1e-12 of a limit may fall on either side.",
 "P27": "The tool itself, built with ASan/UBSan; candidates come from the recogniser after they were compared with the exhaustive comparison, the rest from reference models.",
 "P29": "The tool itself, built with ASan/UBSan, against a set of lines.",
 "P31": "The tools themselves, built with ASan/UBSan, with RLIMIT_FSIZE, /dev/full and a closed pipe as faults of the standard output.",
 "P32": "The script itself with the tools built with ASan/UBSan, on generated trees in a scratch directory.",
 "P33": "The tools themselves, built with ASan/UBSan; one fault per command line.",
 "P34": "Fault injection into files (cut positions, changed numbers) against the entry boundaries known from generation; values whose last token is shortened may go either way.",
 "P37": "The tools themselves, built with ASan/UBSan; what the plain run prints is judged by P12-P14, P27, P29.",
 "P39": "read() is interposed in the harness and in the tools, built with ASan/UBSan; a way of reading that does not call it is only seen undisturbed.",
 "P40": "operator new is replaced in the harness; which allocations fail depends on the tree, the oracle does not.",
 "P42": "Kinds and operations are found at compile time, so a kind that stops being copyable is no alarm.",
 "P41": "Built with ThreadSanitizer, which reports unsynchronised accesses of the executions it sees whether or not they collide; the system's scheduler chooses the interleavings.",
 "P38": "List and integer models over generated lists, orders and positions.",
 "P36": "Library and tool on the shipped list; the exploration is in probes, searches, samples and orders.",
 "P35": "The tools themselves, built with ASan/UBSan, on the shipped tables and images; the rest by differential against an exhaustive scan.",
 "P30": "The whole tool chain, built with ASan/UBSan, on alphabets the exhaustive comparison tells apart.",
}
TECH = {
 "P02": "structured and byte-level fuzzing, differential oracle", "P03": "property-based testing: model and order axioms",
 "P08": "stateful property-based testing against fresh extraction", "P10": "property-based testing: round trip and concatenation",
 "P11": "property-based testing: round trip", "P12": "property-based testing of the tool: set model and metamorphic relations",
 "P22": "property-based testing: set model and round trip", "P28": "fault injection into files, differential with in-memory reading",
 "P29": "property-based testing of the tool: set model and metamorphic relations", "P31": "fault injection into the output, differential with the undisturbed run",
 "P32": "property-based testing of the script: set model and feature model", "P33": "property-based testing of the tools: metamorphic (one thing wrong)",
 "P34": "fault injection into files, model of the entries kept", "P30": "end-to-end property-based testing: round trip", "P37": "property-based testing: metamorphic (same contents elsewhere)", "P38": "property-based testing: list model, inverse permutation", "P42": "stateful property-based testing: histories of moves, copies and exchanges against a model", "P41": "property-based testing with threads under a race detector, metamorphic relation with one thread", "P39": "fault injection into reads, metamorphic relation with the undisturbed run", "P40": "fault injection into allocations, resource and result invariants", "P36": "property-based testing at real size: set model, round trip, exhaustive backtracking", "P35": "property-based testing: differential with an exhaustive scan, golden reproduction of shipped tables",
}
checks = []
for p in props:
    i = p["id"]
    note = NOTE.get(i, "Differential against the reference model in pbt/ref.hpp over generated inputs.")
    note += " Exploration only: %d cases in quick, %d in thorough%s; trusts the reference model and the generators' domain." % (
        cases[i]["quick"], cases[i]["thorough"], "" if cases[i].get("tools") or cases[i].get("threads") else " plus a coverage-guided search")
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i, "property-based testing against a reference model"), "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile /repo's sources as they are. Genuine defects found and repaired are listed in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
