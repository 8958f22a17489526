#!/usr/bin/env python3
"""caught.py [--jobs N] [--out FILE] [id prefixes]: for every planted bug, how many eighths of its check it takes until the bug is noticed."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
args, jobs, out, ids = sys.argv[1:], 7, os.path.join(HERE, "CAUGHT.md"), []
while args:
    x = args.pop(0)
    if x == "--jobs":
        jobs = int(args.pop(0))
    elif x == "--out":
        out = args.pop(0)
    else:
        ids.append(x)
ONE = """
import sys, os
sys.path.insert(0, %r)
import check
prop, tmp = sys.argv[1:3]
p = check.plan.PLAN[prop]
race = p["kind"] == "race"
b = check.build(p["kind"], tmp)
real = check.subprocess.Popen
for s in range(8):
    # only shard s of eight
    check.subprocess.Popen = real
    out, err = os.path.join(tmp, "r0.json"), os.path.join(tmp, "e0.txt")
    if os.path.exists(out):
        os.remove(out)
    class P:
        def __new__(cls, cmd, **k):
            cmd[cmd.index("-shard") + 1], cmd[cmd.index("-shards") + 1] = str(s), "8"
            return real(cmd, **k)
    check.subprocess.Popen = P
    res, crashes, errors = check.run_shards(b, prop, "quick", 1, tmp, (), 1, 700, race)
    check.subprocess.Popen = real
    v = [x["message"] for r in res for x in (r["violations"] or [])] + ["process died: " + c[1] for c in crashes]
    if race:
        v += ["data race" for x in check.race_reports(tmp) if "lyokato/goidc" in x]
    if v:
        print("CAUGHT", s + 1, v[0])
        sys.exit()
    if errors:
        print("ERROR", errors[0][-200:])
print("MISSED")
""" % VERIF


def run(bug):
    d = os.path.join(VERIF, "seeded", bug)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="caught-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", check=True)
        os.mkdir(tmp + "/t")
        r = subprocess.run([sys.executable, "-c", ONE, prop, tmp + "/t"], env=dict(os.environ, VERIF_REPO=tmp + "/repo", GOMAXPROCS="2"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return bug, prop, (r.stdout.strip() or "ERROR " + r.stderr[-200:]).split("\n")[-1] if "CAUGHT" not in r.stdout else [l for l in r.stdout.split("\n") if l.startswith("CAUGHT")][0]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


bugs = [b for b in sorted(os.listdir(VERIF + "/seeded")) if not ids or any(b.startswith(i) for i in ids)]
rows = []
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for b, p, r in ex.map(run, bugs):
        print(b, p, r[:160], flush=True)
        rows.append((b, p, r))
if not ids:
    with open(out, "w") as f:
        f.write("# Planted bugs and the check of their property\n\nWritten by caught.py. \"part\" is how many eighths of the quick check were run until one reported the bug.\n\n| bug | check | part | first report |\n|---|---|---|---|\n")
        for b, p, r in rows:
            w = r.split(" ", 2)
            f.write("| %s | %s | %s | %s |\n" % (b, p, w[1] if w[0] == "CAUGHT" else w[0].lower(), "".join(c if " " <= c <= "~" else "?" for c in (w[2] if len(w) > 2 else ""))[:110].replace("|", "/")))
