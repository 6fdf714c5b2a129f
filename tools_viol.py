#!/usr/bin/env python3
# developer aid: summarises violation files of the last run
import sys, vlib, glob, os
for p in sys.argv[1:]:
    for f in sorted(glob.glob(os.path.join(vlib.BUILD, "run", p, "*.viol"))):
        print("==", os.path.basename(f))
        for v in vlib.parse_viol(f):
            print(v["label"], "|", v["detail"], "|", v["where"][:200], "|", " ".join(x.split("\t")[1] + "=" + x.split("\t")[3] for x in v["vars"])[:300])
