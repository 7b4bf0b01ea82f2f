#!/usr/bin/env python3
"""Planted bugs: make() writes one to seeded/, `seed.py ID...` tries them in a
scratch copy of /repo: demo on the clean tree, build, tests, demo and the
property's check with the patch."""
import glob, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" >"$tmp/ov.json"
cd "$PWD" && go test -vet=off -count=1 -timeout 120s -overlay "$tmp/ov.json" -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r)
    return d, r


def make(id, prop, needs, breaks, edits, pkg, test):
    d, r = scratch()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        _, diff = sh(["git", "diff"], r)
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo_test.go"), "w").write(test.lstrip())
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(pkg=pkg))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)


def passed(r):
    code, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-cpu", "1", "./..."], r)
    ok = set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") == "pass":
            ok.add("%s/%s" % (e["Package"], e["Test"]))
    return ok


def baseline():
    for k in ("passed", "stable", "pass"):
        if k in BASE:
            return set(BASE[k])


def attempt(id, check=True):
    sd = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(sd, "meta.json")))["property"]
    d, r = scratch()
    res = [id, prop]
    try:
        code, out = sh(["bash", os.path.join(sd, "demo.sh")], r)
        if code != 0:
            return res + ["DEMO FAILS ON CLEAN TREE", out[-1500:]]
        code, out = sh(["git", "apply", os.path.join(sd, "patch.diff")], r)
        if code != 0:
            return res + ["DOES NOT APPLY", out]
        code, out = sh(["go", "build", "./..."], r)
        if code != 0:
            return res + ["DOES NOT BUILD", out[-1500:]]
        miss = baseline() - passed(r)
        if miss:
            return res + ["TESTS FAIL", str(sorted(miss)[:5])]
        code, out = sh(["bash", os.path.join(sd, "demo.sh")], r)
        if code == 0:
            return res + ["DEMO PASSES WITH PATCH"]
        if not check:
            return res + ["valid"]
        code, out = sh([sys.executable, "check.py", prop, "quick"], VERIF, env=dict(ENV, VERIF_REPO=r, VERIF_SEED="1"))
        if code == 1 and "VIOLATION property=" + prop in out:
            return res + ["caught"]
        return res + ["MISSED" if code == 0 else "CHECK ERROR %d" % code, out[-600:]]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    for id in ids:
        print(*attempt(id), flush=True)
