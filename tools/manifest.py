"""Writes MANIFEST.json from properties.jsonl and attribution.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import attribution  # noqa: E402

NOTE = ("Contracts on the functions of /repo, extracted from its current source on every run and discharged by Verus "
        "for all inputs. Trusted: Verus and Z3, the extraction, the models of std and of typeface's primitives, and "
        "the assumptions in the evidence. A bounded comparison with a reference implementation runs besides, for "
        "failing inputs and against the assumptions; it is never counted as proved. If the verifier cannot take a "
        "changed function, that comparison alone decides and the evidence's level says exploration.")
checks = []
for name, plan in sorted(attribution.PROPERTIES.items()):
    checks.append({
        "property": name,
        "quick_cmd": f"python3 check.py {name}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {name}",
        "evidence_file": f"evidence/{name}.json",
        "technique": "contract-based deductive verification (Verus) of the extracted source",
        "level": "proof",
        "level_note": NOTE,
    })
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "known_findings.jsonl lists the recorded and the repaired defects. No hooks in /repo are needed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")
