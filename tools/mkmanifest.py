"""Write MANIFEST.json from properties.jsonl and props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

NOTE = ("TLC checks the property on the specification for every behaviour within the small-scope bounds of DESIGN.md; the binding to the "
        "implementation is by conformance: all (or, where capped, a seeded sample) of these behaviours and seeded random larger ones are executed "
        "on the library built from /repo and TLC decides whether each observation is what the specification says. Trusted: TLC, the harness's "
        "observation of public API results, rustc. Beyond the explored inputs nothing is proved about the code.")
SPECIFIC = {
    "C21": " Work and memory are measured (allocator count and CPU time) on inputs of 0.4 MB (thorough: 3 MB) against linear bounds of the specification.",
    "C18": " Files and fifos are real ones inside a scratch directory; chunk boundaries are forced by feeding the fifo piece by piece.",
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    mods = sorted({m["module"] for tier in props.PROPS[i]["models"].values() for m in tier})
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s quick" % i,
        "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC (%s), behaviours replayed on the library, recorded behaviour validated by TLC (Check)" % ", ".join(mods),
        "level": "model_checking",
        "level_note": NOTE + SPECIFIC.get(i, ""),
    })
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed through the public API. Genuine defects repaired by fix: commits are listed in KNOWN_FINDINGS.json."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
