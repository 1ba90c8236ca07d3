#!/usr/bin/env python3
"""Maintenance: writes MANIFEST.json from props.py."""
import json, os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props
NA = {
    "C18": "concurrent: the allocator's types are Arc/RwLock/Mutex/atomics whose contracts in the verifier would need permission-typed "
           "(ghost-token) rewrites of the code; contracts on the unmodified code say nothing about interleavings, Kani has no threads, "
           "and the deciding technique would have to be a schedule explorer",
}
checks = []
for p, d in props.PROPS.items():
    n = ", ".join(u for u, _ in d["units"])
    proof = d["level"] == "proof"
    checks.append({
        "property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} --tier thorough",
        "technique": ("contracts on the functions extracted from /repo, discharged by Verus" + (f" (units {n})" if n else "") +
                      "; the same contracts executed on the compiled code supply failing inputs") if n else
                     "executable contracts of the public functions run over generated histories of the compiled code (bounded stand-in)",
        "level": d["level"],
        "level_note": "; ".join((["proved for all inputs by Verus on the text extracted from /repo on every run"] if proof else []) +
                                (d.get("proved", [])) + ["bounded: " + b for b in d["bounded"]] + ["assumes: " + a for a in d["assumptions"]]),
    })
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
           "notes": "No hooks in /repo: private items are reached by extracting their text."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
