#!/usr/bin/env python3
"""Prints the measured case distribution of the last runs: dist.py ID..."""
import json, sys
from pathlib import Path
for i in sys.argv[1:]:
    for q in json.load(open(Path(__file__).parent.parent / "evidence" / f"{i}.json"))["coverage"]["parts"]:
        print(i, q["part"], q["config"], q["evaluations"], "nontrivial", q["nontrivial"], "distinct", q["distinct_nontrivial"], f"{q['wall_s']}s")
        if q["config"] == "checked":
            for k, v in sorted(q["labels"].items(), key=lambda x: -x[1]):
                print(f"    {100*v/q['evaluations']:6.2f}% {k}")
