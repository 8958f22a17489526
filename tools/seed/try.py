#!/usr/bin/env python3
"""try.py [--props C01,C02|all|own] [--tier T] [ids]: runs checks against copies of /repo with a planted bug each."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

args = sys.argv[1:]
props, tier, ids = "own", "quick", []
while args:
    a = args.pop(0)
    if a == "--props":
        props = args.pop(0)
    elif a == "--tier":
        tier = args.pop(0)
    else:
        ids.append(a)
tmp = tempfile.mkdtemp(prefix="seedtry-", dir="/tmp")
try:
    shutil.copytree("/verif", tmp + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "out", "evidence"))
    shutil.copytree("/repo", tmp + "/r", symlinks=True)
    for b in sorted(os.listdir("/verif/seeded")):
        if ids and not any(b.startswith(i) for i in ids):
            continue
        d = "/verif/seeded/" + b
        own = json.load(open(d + "/meta.json"))["property"]
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tmp + "/r", check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/r", check=True)
        ps = [own] if props == "own" else ["C%02d" % i for i in range(1, 34)] if props == "all" else props.split(",")
        row = []
        for p in ps:
            t = time.time()
            r = subprocess.run(["python3", "check.py", p, "--tier", tier], cwd=tmp + "/v", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_SEED="1"))
            if props != "all" or r.returncode:
                msg = ""
                if len(ps) == 1:
                    lines = [l for l in (r.stdout + r.stderr).split("\n") if l.strip() and not l.startswith("VIOLATION")]
                    msg = " | ".join(l[:150] for l in lines[:2])
                row.append("%s%s=%d%s (%.0fs) %s" % (p, "*" if p == own else "", r.returncode, " VIOLATION" if "VIOLATION property=" + p in r.stdout else "", time.time() - t, msg))
        print("%-24s %s" % (b, "  ".join(row)), flush=True)
finally:
    shutil.rmtree(tmp)
