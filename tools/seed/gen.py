#!/usr/bin/env python3
"""gen.py [ids]: makes /verif/seeded from bugs.py and confirms each in copies of /repo under /tmp: the patch
applies, the tree builds and passes the stable tests, the demonstration tells the trees apart."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs  # noqa: E402

SEEDED = "/verif/seeded"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(b, clean, work):
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    sh(["git", "checkout", "-q", "--", "."], work)
    for f, old, new in b["edits"]:
        p = os.path.join(work, f)
        s = open(p).read()
        rx = re.compile(re.escape(re.sub(r"\n(?:[ \t]*\n)+", "\n", old)).replace("\\\n", r"\n(?:[ \t]*\n)*"))  # blank lines don't matter
        hits = list(rx.finditer(s))
        if len(hits) != 1:
            return "edit matches %d times in %s: %s" % (len(hits), f, old[:80])
        m = hits[0]
        open(p, "w").write(s[:m.start()] + new + s[m.end():])
    sh(["gofmt", "-w"] + sorted({f for f, _, _ in b["edits"] if f != bugs.AE}), work)
    diff = sh(["git", "diff"], work).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if b["jwk"]:
        shutil.copytree("/verif/harness_jwk/jwxstub", os.path.join(d, "jwxstub"), dirs_exist_ok=True)
    else:
        shutil.copy(os.path.join(HERE, "kit.go"), d)
    shutil.copy(os.path.join(HERE, "demo.sum"), d)
    demo = open(os.path.join(HERE, "demo_jwk.sh" if b["jwk"] else "demo.sh")).read().replace("@RACE@", "-race " if b["race"] else "").replace("@ENV@", b["env"] + " " if b["env"] else "")
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    body = b["demo"]
    main = "package main\n\n" + imports(body, b["helpers"]) + "\n" + strip_imports(b["helpers"]) + "\nfunc main() {" + body + "\tfmt.Println(\"ok\")\n}\n"
    open(os.path.join(d, "main.go"), "w").write(main)
    fmt = sh(["gofmt", "-w", os.path.join(d, "main.go")], work)
    if fmt.returncode:
        return "demo: " + fmt.stdout
    # tests in the changed tree
    bl = sh("go build $(go list -e ./... | grep -vxE 'github.com/lyokato/goidc(/crypto|/test_helper)?') && go build -o /dev/null $(ls *.go | grep -v _test | grep -vx jwk_endpoint.go)", work, shell=True)
    if bl.returncode:
        return "build: " + bl.stdout
    te = sh("go test -vet=off -count=1 $(go list -e ./... | grep -vxE 'github.com/lyokato/goidc(/crypto|/test_helper|/id_token)?')", work, shell=True)
    if te.returncode:
        return "tests: " + te.stdout
    r0 = sh(["bash", os.path.join(d, "demo.sh")], clean)
    r1 = sh(["bash", os.path.join(d, "demo.sh")], work)
    if r0.returncode != 0:
        return "demo fails on the clean tree (%d): %s" % (r0.returncode, r0.stdout)
    if r1.returncode in (0, 3):
        return "demo passes with the patch (%d): %s" % (r1.returncode, r1.stdout)
    full = full_tests(work)
    return "ok  %s%s" % (r1.stdout.strip().split("\n")[0][:110], full)


KNOWN = {"fmt": "fmt", "strings": "strings", "sync": "sync", "time": "time", "http": "net/http", "jwt": "github.com/golang-jwt/jwt", "goidc": "github.com/lyokato/goidc",
         "authorization": "github.com/lyokato/goidc/authorization", "bridge": "github.com/lyokato/goidc/bridge", "flow": "github.com/lyokato/goidc/flow",
         "prompt": "github.com/lyokato/goidc/prompt", "base64": "encoding/base64", "regexp": "regexp", "os": "os", "url": "net/url", "json": "encoding/json", "grant": "github.com/lyokato/goidc/grant", "id_token": "github.com/lyokato/goidc/id_token"}


def imports(body, helpers):
    text = strip_imports(helpers) + body
    want = ['"fmt"'] + sorted('"%s"' % p for n, p in KNOWN.items() if n != "fmt" and re.search(r"(?<![\w.\"/])%s\.[A-Z]" % n, text))
    extra = []
    block = False
    for l in helpers.split("\n"):
        if l.startswith("import ("):
            block = True
        elif block and l.startswith(")"):
            block = False
        elif block:
            extra.append(l.strip())
        elif l.startswith("import "):
            extra.append(l[7:])
    return "import (\n" + "\n".join("\t" + w for w in want + [e for e in extra if e not in want]) + "\n)\n"


def strip_imports(h):
    out, block = [], False
    for l in h.split("\n"):
        if l.startswith("import ("):
            block = True
        elif block:
            block = not l.startswith(")")
        elif not l.startswith("import "):
            out.append(l)
    return "\n".join(out)


def full_tests(work):
    """The tests that need go-jwx, with the stand-in: only to know."""
    gm = os.path.join(work, "go.mod")
    keep = open(gm).read()
    ks = open(os.path.join(work, "go.sum")).read()
    open(gm, "a").write("\nrequire github.com/lestrrat/go-jwx v0.0.0\nreplace github.com/lestrrat/go-jwx => /verif/harness_jwk/jwxstub\n")
    t = sh(["go", "test", "-vet=off", "-count=1", "./..."], work)
    open(gm, "w").write(keep)
    open(os.path.join(work, "go.sum"), "w").write(ks)
    return "" if t.returncode == 0 else "   [full suite: %s]" % " ".join(l for l in t.stdout.split("\n") if l.startswith("--- FAIL") or l.startswith("FAIL"))[:200]


def main():
    ids = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="seedgen-", dir="/tmp")
    try:
        for n in ("clean", "work"):
            shutil.copytree("/repo", os.path.join(tmp, n), symlinks=True)
        for b in bugs.BUGS:
            if ids and b["id"] not in ids:
                continue
            print("%-24s %s" % (b["id"], make(b, os.path.join(tmp, "clean"), os.path.join(tmp, "work"))), flush=True)
    finally:
        shutil.rmtree(tmp)


main()
