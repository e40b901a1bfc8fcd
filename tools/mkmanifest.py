"""Writes /verif/MANIFEST.json from the properties and the job lists."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs

NOTE = ("Bounded symbolic execution of the crate's current LLVM IR (the executor /verif/engine, Z3): every assertion is decided for all values of the "
        "symbolic inputs within the bounds listed per run in the evidence; counterexamples are replayed natively before they are reported, and sampled "
        "paths are compared with native dev and release runs. ")
EXTRA = {
    "C01": "Bounds: single categories with both bounds over the whole code space, long tables with one bound or windows, up to 2 + 2 characters, category combinations in windows; the reference is the published character database (/verif/golden).",
    "C02": "Same runs as C01, judging the shape of the answers.",
    "C03": "All 2^64 bound pairs for small categories and all categories, one bound at a time for Ll; messages for ranges of values.",
    "C04": "Bounds below 256, one or both symbolic, with up to four symbolic characters; reference: the cut of the answer for the whole code space, and the same query forced off the small-range code.",
    "C05": "Any sequence of two or three settings (any of ten kinds) with symbolic values on small categories.",
    "C06": "Real categories and several together (up to 700 intervals), cut or extended, and symbolic sets of up to three characters, windows with a hole; every 32-bit index, code point or value.",
    "C07": "Any interleaving of up to six steps from both ends over symbolic sets; any element of several real categories.",
    "C08": "Complete for the bundled tables: all versions, every 32-bit value.",
    "C09": "Complete for the bundled tables: all versions, every code point; trusts the recorded database (golden/golden.bin, cross-checked with independent copies of the UCD, see DESIGN.md).",
    "C10": "Complete: all pairs of the 2^30 sets, every category.",
    "C11": "All sets for the first steps; complete iteration and text for windows of symbolic members, the rest absent or present.",
    "C12": "Every UTF-8 text up to the stated lengths.",
    "C13": "Complete: all versions and pairs of positions.",
    "C14": "Lists of up to two (thorough: three) symbolic names next to fixed ones, and after an expansion of other symbolic names or in another version.",
    "C15": "The real binding with the real pyo3 0.28 (argument parsing included), called through the C API: a model of CPython in the symbolic build (harness/src/cpython.rs), the real interpreter in the native comparison. Up to two symbolic names and two symbolic characters next to fixed ones; bounds any 32- or 64-bit number; one call before.",
    "C16": "As C15: every version, every two version objects, texts up to the stated length, any three category calls, name lists of up to two symbolic names. Calls from several threads at once are outside.",
    "C17": "Up to seven symbolic characters in the two strings, next to up to one hundred fixed ones (thorough: two hundred; three hundred when none are neighbours).",
    "C18": "Complete for versions, categories and category sets; queries with any characters (up to three on each side) and with up to six settings of symbolic value, made in two orders; error texts of up to four characters.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in jobs.PROPS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the crate's LLVM IR, assertions decided by Z3 (bounded)",
            "level": "model_checking",
            "level_note": NOTE + EXTRA[p["id"]],
        })
na = [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in jobs.PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harnesses use the public API; for the Python binding pyshim/ compiles its source file as a library. check.py --replay FILE runs a recorded counterexample against the real code."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
