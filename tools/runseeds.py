#!/usr/bin/env python3
"""runseeds.py [-j N] [-p PROP] [id...]: apply each planted bug to a scratch copy of /repo, run its property's check (or
PROP's) on the copy; prints who caught it."""
import json, os, subprocess, sys, shutil, time, tempfile, concurrent.futures as cf
args = sys.argv[1:]
jobs, prop, ids = 2, None, []
while args:
    a = args.pop(0)
    if a == "-j":
        jobs = int(args.pop(0))
    elif a == "-p":
        prop = args.pop(0)
    else:
        ids.append(a)
ids = ids or sorted(os.listdir("/verif/seeded"))


def one(i):
    d = "/verif/seeded/" + i
    p = prop or json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seedrun_")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        if subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"]).returncode:
            return print(i, "patch does not apply", flush=True)
        t = time.time()
        r = subprocess.run(["bin/check", p], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_EVIDENCE=w + "/ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
        hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        why = [l.strip()[:220] for l in r.stdout.splitlines() if "rejected:" in l][:1]
        ex = [l.strip()[-60:] for l in r.stdout.splitlines() if "xplor" in l]
        print("%-28s %s %s rc=%d %3ds %s %s" % (i, p, "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t, why or r.stdout[-300:] + r.stderr[-300:], ex), flush=True)
    finally:
        shutil.rmtree(w)


with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
    list(ex.map(one, ids))
