#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] | check.py --replay FILE | check.py --warm

Builds the harness against /repo's working tree, runs it in parallel shards, merges what the monitors
observed, writes evidence/Cxx.json, and says whether the property held (exit 0) or not (exit 1)."""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv(tmp):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GOFLAGS_EXTRA="")
    e.pop("GOFLAGS_EXTRA")
    e["TMPDIR"] = tmp
    e["VERIF_SRC"] = REPO  # the harness reads words and numbers to try from the source
    return e


def build(kind, tmp):
    """Copies the harness module (go may rewrite go.mod/go.sum) and builds it against REPO."""
    src = os.path.join(VERIF, "harness_jwk" if kind == "jwk" else "harness")
    mod = os.path.join(tmp, "mod-" + kind)
    shutil.copytree(src, mod)
    if kind == "jwk":  # shares these with the other harness
        for n in ("framework.go", "rng.go", "keys_pem.go", "dict.go", "dict_base.txt"):
            shutil.copy(os.path.join(VERIF, "harness", n), mod)
    gm = os.path.join(mod, "go.mod")
    with open(gm) as f:
        text = f.read()
    with open(gm, "w") as f:
        f.write(text.replace("=> /repo", "=> " + REPO))
    out = os.path.join(tmp, "h-" + kind)
    cmd = ["go", "build", "-o", out]
    if kind != "jwk":
        ov = os.path.join(tmp, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {REPO + "/jwk_endpoint.go": "", REPO + "/go.mod": os.path.join(mod, "repo.mod")}}, f)
        cmd += ["-overlay", ov]
    else:
        ov = os.path.join(tmp, "overlay-jwk.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {REPO + "/go.mod": os.path.join(mod, "repo.mod")}}, f)
        cmd += ["-overlay", ov]
    if kind == "race":
        cmd += ["-race"]
    p = subprocess.run(cmd + ["."], cwd=mod, env=goenv(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout)
        log("check.py: the harness does not build against", REPO)
        sys.exit(2)
    return out


def run_shards(binary, prop, tier, seed, tmp, extra=(), shards=SHARDS, timeout=800, race=False):
    procs = []
    for s in range(shards):
        out = os.path.join(tmp, "r%d.json" % s)
        err = open(os.path.join(tmp, "e%d.txt" % s), "wb")
        e = goenv(tmp)
        if race:
            e["GORACE"] = "halt_on_error=0 history_size=3 exitcode=0 log_path=" + os.path.join(tmp, "race%d" % s)
        cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(s), "-shards", str(shards), "-out", out] + list(extra)
        procs.append((s, out, err, subprocess.Popen(cmd, cwd=tmp, env=e, stdout=subprocess.DEVNULL, stderr=err)))
    end = time.time() + timeout
    res, crashes, errors = [], [], []
    for s, out, err, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("shard %d ran out of time" % s)
            continue
        err.close()
        with open(err.name, errors="replace") as f:
            text = f.read()
        if os.path.exists(out):
            with open(out) as f:
                res.append(json.load(f))
        if rc != 0:
            m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", text, re.M)
            f = re.search(r"^(main\.|github\.com/lyokato/goidc)", text[m.end():], re.M) if m else None
            if f and "HARNESS PANIC" not in text and f.group(1) != "main.":
                crashes.append((s, m.group(1), text))
            else:
                errors.append("shard %d ended with %d: %s" % (s, rc, text[-3000:]))
    return res, crashes, errors


def race_reports(tmp):
    """Data races in which the code under test takes part."""
    out = []
    for n in sorted(os.listdir(tmp)):
        if not re.match(r"race\d+\.\d+$", n):
            continue
        with open(os.path.join(tmp, n), errors="replace") as f:
            for block in f.read().split("=================="):
                if "WARNING: DATA RACE" in block:
                    out.append(block.strip())
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    replay = None
    prop = None
    i = 0
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 2
        elif args[i] == "--seed":
            seed = int(args[i + 1])
            i += 2
        elif args[i] == "--replay":
            with open(args[i + 1]) as f:
                replay = json.load(f)
            prop, tier, seed = replay["property"], replay["tier"], replay["seed"]
            i += 2
        elif args[i] == "--warm":
            tmp = tempfile.mkdtemp(prefix="verif-warm-")
            try:
                for k in sorted({p["kind"] for p in plan.PLAN.values()}):
                    build(k, tmp)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            return 0
        else:
            prop = args[i]
            i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    p = plan.PLAN[prop]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, p, tier, seed, replay, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, p, tier, seed, replay, tmp):
    t0 = time.time()
    kind = p["kind"]
    binary = build(kind, tmp)
    tbuild = time.time() - t0
    extra, shards = [], SHARDS
    if replay and replay.get("generator"):
        extra, shards = ["-gen", replay["generator"], "-idx", str(replay["index"])], 1
    limit = 780 if tier == "quick" else 6 * 3600
    res, crashes, errors = run_shards(binary, prop, tier, seed, tmp, extra, shards, limit, kind == "race")
    counters, hashes, viol, known, require, samples, rule = collections.Counter(), set(), [], {}, {}, [], ""
    ev = 0
    for r in res:
        ev += r["evaluations"]
        counters.update(r["counters"])
        hashes.update(r["hashes"] or [])
        viol += r["violations"] or []
        for k, v in r["known"].items():
            known.setdefault(k, v)
        require.update(r["require"])
        samples += r["samples"] or []
        rule = r["rule"] or rule
    for s, what, text in crashes:
        viol.append({"property": prop, "generator": "", "index": 0, "message": "the process died: " + what, "detail": [text[:20000]]})
    races = race_reports(tmp) if kind == "race" else []
    for b in races:
        if "lyokato/goidc" in b:
            viol.append({"property": prop, "generator": "", "index": 0, "message": "data race", "detail": b.split("\n")})
        else:
            errors.append("data race inside the harness:\n" + b)
    if replay:
        for v in viol:
            print(json.dumps(v, indent=1, ensure_ascii=False))
        print("replayed: %d violations" % len(viol))
        return 1 if viol else 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:6],
           "counters": {k: v for k, v in sorted(counters.items()) if not k.startswith("other.")}, "build_s": round(tbuild, 2), "shards": shards}
    if kind == "race":
        cov["race_reports"] = len(races)
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": p["level"], "coverage": cov,
                "assumptions": plan.ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    findings = plan.known_findings(VERIF)
    listed = {k for k, v in findings.items() if prop in v["properties"]}
    for k, example in sorted(known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s %s; e.g. %s" % (prop, k, findings[k]["what"], example))
        else:
            viol.append({"property": prop, "generator": "", "index": 0, "message": "%s: %s" % (k, example), "detail": []})
    if viol:
        n, seen = 0, set()
        for v in viol:
            key = re.sub(r"[0-9\"\\]+|(code|at|rt|jti|state|nonce)-\S+", "#", v["message"])[:60]
            if key in seen and n:
                continue
            seen.add(key)
            path = os.path.join(VERIF, "out", "%s-%d.json" % (prop, n))
            v = dict(v, tier=tier, seed=seed)
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["message"][:600].replace("\n", " "))
            n += 1
            if n >= 5:
                break
        return 1
    for e in errors:
        log("check.py:", e)
    low = ["%s: %d of %d" % (k, counters.get(k, 0), n) for k, n in require.items() if counters.get(k, 0) < n]
    if low and not errors:
        log("check.py: too little observed:", "; ".join(low))
    if errors or low or not res:
        return 2
    print("%s held: %d evaluations, %d distinct nontrivial, %.1f s" % (prop, ev, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
