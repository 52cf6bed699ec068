#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import PROPS, LEVEL_NOTES, TECHNIQUES
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECHNIQUES[PROPS[i]["rule"]], level="exploration",
                           level_note=LEVEL_NOTES[PROPS[i]["rule"]]))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="MVAULT_VERIF_SMALL_CHUNKS", enable="-DMVAULT_VERIF_SMALL_CHUNKS (check.py passes it to the builds that read files by small blocks)", source_commits=["173bfe6"]),
         checks=checks, not_applicable=na,
         notes="Every check builds what it needs from /repo/Source. python3 check.py --replay <file> runs a reported case again with its trace.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
