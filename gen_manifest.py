#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.props import PROPS
NA = {
    "C31": "Equality of numerical results between a chained and a single run quantifies over data values and chunkings: it rests on user supplied segmentation callables and on arithmetic over run-time arrays that no static argument in reach bounds. Its structural clauses (state saved and read back, carry decision, restart position) are claimed as C22, C23 and C30.",
    "C33": "Rests on what fastparquet and the file system leave on disk between two system calls; the repository only calls fastparquet, so there is no crash ordering in its source to decide (the order write, remove, footer is claimed as C05 and C09).",
    "C34": "Value fidelity is decided inside fastparquet, vaex and pandas, outside of the analysed source, and quantifies over data values.",
    "C35": "Bounds run-time memory of dataframes (memory_usage); not a statement about the source. The accounting code is compared with its reference under C24.",
}
T = ("Static analysis (stdlib ast, no execution): path-sensitive abstract interpretation of the functions the property rests on into normalised "
     "guarded summaries (conditions, results, exceptions, ordered file-system and state effects), compared path pair by path pair with reviewed "
     "reference summaries; definite differences are reported at the construct, unrelatable ones are recorded as undecided. A changed function is also compared edit by edit: each differing "
     "statement group against its counterpart, under the conditions and values both sides share on the way there.")
checks = []
for p in PROPS:
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": T, "level": "other",
                   "level_note": "Decides agreement of the functions listed in sa/props.py for this property, on every path, with a reference reviewed "
                                 "against the property; semantics of numpy, pandas, fastparquet and vaex calls are taken as uninterpreted.",
                   "evidence_file": "evidence/%s.json" % p})
m = {"version": 1, "setup_cmd": "python3 -B -c \"import ast, sys; sys.path.insert(0, '.'); import sa.engine\"", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
