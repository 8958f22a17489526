#!/usr/bin/env python3
"""refactor.py [--props C01,..] [groups]: edits that keep the behaviour, made in a copy of /repo, on which the checks have to
stay quiet. Groups are applied together unless --each is given."""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from edits import GROUPS  # noqa: E402


def apply(root, name):
    for e in GROUPS[name]:
        f = os.path.join(root, e[0])
        s = open(f).read()
        if callable(e[1]):
            n = e[1](s)
        else:
            if s.count(e[1]) < 1:
                raise SystemExit("%s: %r not in %s" % (name, e[1][:80], e[0]))
            n = s.replace(e[1], e[2]) if len(e) > 3 else s.replace(e[1], e[2], 1)
        if n == s:
            raise SystemExit("%s: nothing changed in %s" % (name, e[0]))
        open(f, "w").write(n)
    go = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
    files = sorted({e[0] for e in GROUPS[name]})
    subprocess.run(["gofmt", "-w"] + files, cwd=root, check=True)
    rootfiles = [f for f in os.listdir(root) if f.endswith(".go") and not f.endswith("_test.go") and f != "jwk_endpoint.go"]
    r = subprocess.run(["go", "vet"] + rootfiles, cwd=root, env=go, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if ".go:" in r.stdout:
        print("   vet: " + r.stdout[:1500])


args, props, each = sys.argv[1:], ["C%02d" % i for i in range(1, 34)], False
groups = []
while args:
    a = args.pop(0)
    if a == "--props":
        props = args.pop(0).split(",")
    elif a == "--each":
        each = True
    else:
        groups.append(a)
groups = groups or sorted(GROUPS)
tmp = tempfile.mkdtemp(prefix="refactor-", dir="/tmp")
try:
    shutil.copytree("/verif", tmp + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "out", "evidence"))
    for batch in [[g] for g in groups] if each else [groups]:
        shutil.copytree("/repo", tmp + "/r", symlinks=True)
        for g in batch:
            apply(tmp + "/r", g)
        loud = []
        for p in props:
            t = time.time()
            r = subprocess.run(["python3", "check.py", p], cwd=tmp + "/v", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            if r.returncode:
                loud.append(p)
                lines = [l for l in (r.stdout + r.stderr).split("\n") if l.strip() and not l.startswith("VIOLATION")]
                print("   %s exit %d (%.0fs): %s" % (p, r.returncode, time.time() - t, " | ".join(l[:400] for l in lines[:3])), flush=True)
        print("%s: %s" % (",".join(batch), "LOUD " + ",".join(loud) if loud else "quiet"), flush=True)
        shutil.rmtree(tmp + "/r")
finally:
    shutil.rmtree(tmp)
