#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DEFAULT_NOTE = (
    "TLC checks the property on the specification exhaustively within small bounds; every behaviour it emits is "
    "replayed in the real code, and larger random runs of the real code are validated by TLC as traces. Assumes "
    "that what holds for the enumerated shapes and the sampled embeddings holds beyond them; trusts TLC and the "
    "encoder/harness in /verif.")
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "cfg(osmio_verif)",
        "enable": "RUSTFLAGS='--cfg osmio_verif' cargo build (lib/core.py build_harness); without the hook the checks "
                  "still build, and leave out objects in the Rc representation",
        "source_commits": ["a3389e1"],
    },
    "checks": [],
    "not_applicable": [{"property": p, "reason": registry.NOT_YET.get(p, "check not built yet")}
                       for p in props if p not in registry.CHECKS],
}
for p in props:
    if p in registry.CHECKS:
        m["checks"].append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": registry.TECHNIQUE.get(p, "TLA+ specification checked with TLC; replay of its behaviours and trace validation"),
            "level": "model_checking",
            "level_note": registry.NOTES.get(p, DEFAULT_NOTE),
        })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
