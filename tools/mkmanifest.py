#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

SYNC_T = "TLA+ specification checked with TLC; traces of the real code under a controlled scheduler validated against it by TLC"
SYNC_N = ("TLC checks an abstract specification and a step-level algorithm model exhaustively within small bounds; the "
          "real code is run under thousands of controlled schedules and every recorded execution is checked by TLC to be "
          "a behaviour of the specification. Trusts the scheduler harness, the C++ standard library, TLC; sequential "
          "consistency only.")
T = {
    "C10": (SYNC_T, SYNC_N), "C11": (SYNC_T, SYNC_N), "C12": (SYNC_T, SYNC_N), "C13": (SYNC_T, SYNC_N),
}
T.update(getattr(checks, "MANIFEST_TEXT", {}))

props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[], not_applicable=[])
for p in props:
    if hasattr(checks, p.lower()):
        t, n = T[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s" % p,
                                thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p,
                                technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
