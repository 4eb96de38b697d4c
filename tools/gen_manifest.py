#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
PBT = "property-based testing and coverage-guided fuzzing over choice-sequence generators, with shrinking"
PROC = "property-based testing, choice-sequence generators with shrinking"
CHECKS = {
    "C01": (PBT + "; round-trip oracle", "Random search over JSON values, both encoders, strict and lenient decoding; no proof of absence."),
    "C02": (PBT + "; differential against a reference encoder", "Random search; trusts the independent reference encoder in harness/src/refmodel.rs."),
    "C03": (PBT + "; exact-number oracle", "Random search over numbers, tokens and positions; floats with two equally short spellings are excluded from text comparison only."),
    "C04": (PBT + "; round-trip plus quoting-rule oracle", "Random search over Unicode strings in every position."),
    "C05": (PBT + "; value-to-random-layout generator, exact-value oracle", "Random search over valid documents laid out in non-canonical ways; ambiguous layouts listed in DESIGN.md are not generated."),
    "C06": (PBT + "; corruption operators and a no-silent-drop marker oracle", "Random search over 15 corruptions of valid documents and over marker documents mutated in structure."),
    "C08": (PBT + "; metamorphic relation strict versus lenient", "Random search over valid, broken, mutated and random texts."),
    "C09": (PBT + "; re-encoding stability relation", "Random search over texts strict decoding accepts."),
    "C14": (PBT + "; metamorphic relation over options, entry points and histories of calls", "Random search over texts, option settings and sequences of calls."),
    "C15": (PBT + "; corruption operators with known line", "Random search over single corruptions of valid documents, and the within-document invariant over any text."),
    "C22": (PBT + "; differential against an independent line describer", "Random search over texts."),
    "C23": (PBT + "; differential between the parser's own value and JSON", "Random search over texts and numbers."),
    "C24": (PBT + "; differential between the public parts and the entry points, and against the reference formatting", "Random search over strings, values, texts and sequences of calls."),
    "C07": (PBT + " under all three feature sets; crash, overflow, stack and hang oracle with isolated re-runs", "Random search over texts, options and typed targets; nesting up to 128 levels on a 2 MB stack, texts up to 300 kB; overflow checks and debug assertions on."),
    "C11": (PBT + "; random serde schemas, round-trip and differential against serde_json", "Random search over schemas and values of the whole serde data model, plus a set of derived types."),
    "C13": (PBT + "; differential against a reference deep merge", "Random search over documents with path, literal and quoted keys."),
    "C16": (PBT + "; fault injection into Serialize", "Random search over values with one failing or unrepresentable node."),
    "C19": (PBT + "; fault injection into readers and writers", "Random search over chunk plans, interruptions, faults and invalid bytes."),
    "C17": (PROC + "; differential between the tool's process and the library", "Random search over inputs, flags and ways of input; the tool is built from /repo and run as a process."),
    "C18": (PROC + "; differential between the bindings and the library", "Random search over strings and flags; the bindings run natively (not as WebAssembly) in a process of their own."),
    "C20": (PBT + "; differential between feature sets, and the other properties' checks under this one", "Random search; key folding is not offered by this build and not compared."),
    "C21": (PBT + "; differential between feature sets, and the other properties' checks under this one", "Random search."),
    "C10": (PBT + "; differential between entry points", "Random search over values and options; all public encode entry points compared."),
    "C12": (PBT + "; round-trip plus reference folding", "Random search over chain-rich values and flatten depths."),
}
exec(open(f"{root}/tools/manifest_more.py").read()) if os.path.exists(f"{root}/tools/manifest_more.py") else None
NA = globals().get("NA", {})
m = {
    "version": 1,
    "setup_cmd": "tools/setup.sh",
    "checks": [
        {"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}", "evidence_file": f"evidence/{i}.json", "technique": CHECKS[i][0], "level": "exploration", "level_note": CHECKS[i][1]}
        for i in ids if i in CHECKS
    ],
    "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in CHECKS],
    "notes": "No hooks: every check uses the library's public interface, built from /repo's working tree with a path dependency. The fix: commits in /repo are listed in known-findings.txt.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
