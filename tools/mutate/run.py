#!/usr/bin/env python3
"""run.py [--n N] [--jobs J] [--seed S] [--out FILE]: changes /repo's code at random, one small change per copy, and tells which changes no check notices.

Stage 1 runs a sixteenth of each check; what it leaves is run against whole checks with try_survivors."""
import argparse
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import tempfile

ap = argparse.ArgumentParser()
ap.add_argument("--n", type=int, default=300)
ap.add_argument("--jobs", type=int, default=6)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--parts", type=int, default=16)
ap.add_argument("--out", default="/tmp/mutants.txt")
ap.add_argument("--only", default="")
a = ap.parse_args()
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
tmp = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
subprocess.run(["go", "build", "-o", tmp + "/mutate", HERE + "/main.go"], check=True, env=ENV)
files = [f for f in subprocess.run(["git", "ls-files", "*.go"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()
         if not f.endswith("_test.go") and not f.startswith("test_helper/") and f not in ("log/color.go", "log/text.go")]
muts = [json.loads(l) for l in subprocess.run([tmp + "/mutate"] + files, cwd="/repo", stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n") if l]
print(len(muts), "possible", flush=True)
# what HandleRequest returns is not judged
muts = [m for m in muts if not (m["file"].startswith("authorization_endpoint") and m["op"] in ("true", "false"))]
random.Random(a.seed).shuffle(muts)
if a.only:
    muts = [m for m in muts if a.only in m["file"]]
muts = muts[:a.n]
TOK = ["C03", "C01", "C14", "C26", "C33", "C16", "C15", "C17", "C10"]
AUTH = ["C06", "C12", "C18", "C13", "C07", "C20", "C09"]
REST = ["C34", "C21", "C31", "C24", "C25", "C02", "C05", "C08", "C11", "C19", "C22", "C27", "C29", "C30", "C32", "C35", "C04"]


def order(f):
    if f.startswith("resource"):
        return ["C21", "C22", "C35", "C34"] + [p for p in REST + TOK if p not in ("C21", "C22", "C35", "C34")]
    if f.startswith("auth"):
        return AUTH + REST + TOK
    if f.startswith("jwk") or f.startswith("crypto"):
        return ["C28"] + TOK
    return TOK + AUTH + REST


def run(k):
    m = muts[k]
    d = "%s/%d" % (tmp, k)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        p = d + "/" + m["file"]
        s = open(p, "rb").read()
        old = s[m["start"]:m["end"]].decode()
        s = s[:m["start"]] + m["text"].encode() + s[m["end"]:]
        open(p, "wb").write(s)
        what = "%s:%d %s: %s -> %s" % (m["file"], m["line"], m["op"], " ".join(old.split())[:100], " ".join(m["text"].split())[:100])
        r = subprocess.run(["go", "test"] + ["./" + x for x in "authorization basic_auth flow log oauth_error pkce prompt response_mode scope".split()], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return "notests" if b"build failed" in r.stdout else "tests", what, m
        ov = json.load(open("/tmp/ov.json"))
        ov = json.loads(json.dumps(ov).replace("/repo/", d + "/"))
        json.dump(ov, open(d + "/ov.json", "w"))
        h = d + "/h"
        # a harness whose go.mod points to the copy
        shutil.copytree("/verif/harness", d + "/harness")
        g = open(d + "/harness/go.mod").read().replace("/repo", d)
        open(d + "/harness/go.mod", "w").write(g)
        r = subprocess.run(["go", "build", "-overlay", d + "/ov.json", "-o", h, "."], cwd=d + "/harness", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "noharness", what + r.stdout[:300], m
        for prop in order(m["file"]):
            if prop == "C28":
                continue
            o = d + "/o.json"
            if os.path.exists(o):
                os.remove(o)
            try:
                r = subprocess.run([h, "-prop", prop, "-shard", "3", "-shards", str(a.parts), "-out", o], env=dict(ENV, VERIF_SRC="/repo", GOMAXPROCS="2"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return "killed by hang of " + prop, what, m
            try:
                j = json.load(open(o))
            except Exception:
                return "killed by crash of " + prop, what, m
            if j["violations"] or any(c.startswith("other") or c == "violations" for c in j["counters"]):
                return "killed by " + prop, what, m
        return "SURVIVED", what, m
    finally:
        shutil.rmtree(d, ignore_errors=True)


n = {}
with open(a.out, "w") as f, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
    for res, what, m in ex.map(run, range(len(muts))):
        key = res.split()[0]
        n[key] = n.get(key, 0) + 1
        f.write(res + "\t" + what + "\t" + json.dumps(m) + "\n")
        f.flush()
print(n)
shutil.rmtree(tmp)
