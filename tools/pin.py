#!/usr/bin/env python3
"""Maintenance, never run by a check: records, for the unchanged tree, which functions exist and the structure
(loops, callees) of those under contract, so that a check can tell a broken property from a proof whose text
no longer fits a rewritten function. Writes verus/pinned.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C, contracts as K
x = K.build_extractor()
K.expand()
if os.path.exists(K.PINNED): os.unlink(K.PINNED)
rc, out = C.sh([x, "--names"] + [f"{k}={p}" for k, p in K.SOURCES.items()])
sk = {}
for n in K.UNITS:
    u = K.Unit(n, x, K.GEN)
    assert u.extract() and not u.undecided, (n, u.undecided)
    sk[n] = {f["id"]: f["skeleton"] for f in u.info["functions"]}
json.dump({"names": sorted(set(out.split("\n")) - {""}), "skeletons": sk}, open(K.PINNED, "w"), indent=0, sort_keys=True)
