#!/usr/bin/env python3
"""plant.py SEEDS.py [id...]: confirm planted bugs and keep them under /verif/seeded/<id>/.
SEEDS.py defines SEEDS = {id: dict(prop=, pkg=, needs=, breaks=, edits=[(file, old, new)...], demo=Go test source)}.
Works in a scratch copy of /repo, so it does not disturb what runs against /repo.
A change is kept only if it builds, passes the stable tests, its demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys, runpy, tempfile
T = tempfile.mkdtemp(prefix="plant.")
R = T + "/repo"
VP = T + "/vp"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)


def setup():
    """the copy of /repo, and the build and test scripts with their paths changed to it"""
    sh("cp -a /repo %s; git -C %s checkout -q -- ." % (R, R))
    os.makedirs(VP + "/log")
    for f in ("env.sh", "build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("cd /repo", "cd " + R)
        t = t.replace("/opt/vp/env.sh", VP + "/env.sh").replace("/opt/vp/log", VP + "/log")
        open(VP + "/" + f, "w").write(t)
    if os.path.exists("/tmp/w/numtest.sh"):
        t = open("/tmp/w/numtest.sh").read().replace("/opt/vp/env.sh", VP + "/env.sh").replace("cd /repo", "cd " + R).replace("/tmp/w/num.", T + "/num.")
        open(VP + "/numtest.sh", "w").write(t)


def demo(d):
    shutil.copytree(d, T + "/demo")
    p = T + "/demo/demo.sh"
    t = open(p).read().replace("/opt/vp/env.sh", VP + "/env.sh")
    open(p, "w").write(t)
    try:
        return sh("bash " + p, cwd=R)
    finally:
        shutil.rmtree(T + "/demo")


def stable():
    out = T + "/tests.json"
    sh("bash %s/test.sh %s" % (VP, out))
    def names(x):
        for k in ("passed", "pass", "stable", "tests"):
            if isinstance(x, dict) and k in x:
                return set(x[k])
        return set(x)
    b, t = names(json.load(open("/opt/vp/BASELINE.json"))), names(json.load(open(out)))
    return b - t


DEMO = """#!/bin/bash
# exit 0 where the property holds on this input, nonzero where it does not; run in /repo after the build
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -count=1 -vet=off %s-overlay "$T/overlay.json" -run '^TestDemo$' ./%s
"""

# packages that need github.com/ericlagergren/decimal, which the sandbox lacks: a stand-in lies beside the demo
DEMONUM = """#!/bin/bash
# exit 0 where the property holds on this input, nonzero where it does not; run in /repo after the build
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
{ # the package's own tests need more of that library than the stand-in has: leave them out
  printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"' "$PWD" "$D"
  for f in "$PWD"/%s/*_test.go; do printf ',"%%s":""' "$f"; done
  printf '}}'
} > "$T/overlay.json"
grep -v ericlagergren go.mod > "$T/go.mod"
printf 'require github.com/ericlagergren/decimal v0.0.0\nreplace github.com/ericlagergren/decimal => %%s/decimal\n' "$D" >> "$T/go.mod"
cp go.sum "$T/go.sum"
GOFLAGS=-mod=mod go test -count=1 -vet=off -modfile="$T/go.mod" -overlay "$T/overlay.json" -run '^TestDemo$' ./%s
"""
# the WebAssembly module, called from node
DEMOJS = """#!/bin/bash
# exit 0 where the property holds on this input, nonzero where it does not; run in /repo after the build
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
GOOS=js GOARCH=wasm go build -o "$T/k.wasm" ./cmd/keyaddr || exit 3
timeout 120 node "$D/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$T/k.wasm"
"""
NUM = ("pkg/signed", "pkg/unsigned", "pkg/types", "pkg/eai", "pkg/pricecurve")


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    for sid in sys.argv[2:] or seeds:
        s = seeds[sid]
        d = "/verif/seeded/" + sid
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                t = open(os.path.join(R, f)).read()
                if t.count(old) != 1:
                    print("%s: %d matches in %s for %r" % (sid, t.count(old), f, old))
                    raise LookupError
                open(os.path.join(R, f), "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % R).stdout
            b = sh("bash %s/build.sh" % VP)
            if b.returncode:
                print(sid, "DOES NOT BUILD", b.stdout[-500:], b.stderr[-800:])
                continue
            miss = stable()
            if miss:
                print(sid, "TESTS FAIL", sorted(miss)[:4])
                continue
            if s["pkg"] in NUM and os.path.exists(VP + "/numtest.sh"):
                n = sh("bash %s/numtest.sh" % VP)
                if n.returncode:
                    print(sid, "NUMERIC TESTS FAIL", n.stdout[-1500:], n.stderr[-300:])
                    continue
            open(d + "/patch.diff", "w").write(diff)
            if s["pkg"].startswith("cmd/"):
                open(d + "/demo.js", "w").write(s["demo"])
                open(d + "/demo.sh", "w").write(DEMOJS)
            elif s["pkg"] in NUM:
                open(d + "/demo_test.go", "w").write(s["demo"])
                open(d + "/demo.sh", "w").write(DEMONUM % (s["pkg"], s["pkg"], s["pkg"]))
                shutil.copytree("/verif/shim/decimal", d + "/decimal", dirs_exist_ok=True)
            else:
                open(d + "/demo_test.go", "w").write(s["demo"])
                open(d + "/demo.sh", "w").write(DEMO % (s["pkg"], "-race " if s.get("race") else "", s["pkg"]))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            bad = demo(d)
        except LookupError:
            continue
        finally:
            sh("git -C %s checkout -- ." % R)
        good = demo(d)
        if bad.returncode == 0 or good.returncode != 0:
            print(sid, "DEMO WRONG: patched %d, clean %d" % (bad.returncode, good.returncode), bad.stdout[-300:], good.stdout[-1500:], good.stderr[-500:])
            continue
        if "build failed" in bad.stdout or "setup failed" in bad.stdout:
            print(sid, "DEMO DOES NOT COMPILE with the change", bad.stdout[-800:])
            continue
        print(sid, "kept")


try:
    setup()
    main()
finally:
    shutil.rmtree(T, ignore_errors=True)
    sh("find /verif/seeded -maxdepth 1 -type d -empty -delete")
