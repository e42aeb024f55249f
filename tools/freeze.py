#!/usr/bin/env python3
"""freeze.py: after a fix commit in /repo, rewrite lib/literals.json and lib/unreached.json for the tree as it is now.
unreached.json: for every recorder the blocks of the functions it calls which some run of it leaves out."""
import json, os, subprocess, sys
sys.path.insert(0, "/verif/lib")
import vlib
c = vlib.Ctx("freeze")
c.tier = "quick"
c.build()
c.build(which="numeric")
r = subprocess.run(["go", "run", "./literals", "/repo/pkg", "/repo/cmd"], cwd=c.work + "/driver", env=vlib.goenv(), capture_output=True, text=True)
open("/verif/lib/literals.json", "w").write(r.stdout)
blocks = {}
for which, names in (("core", "C01 C02 C03 C04 C05 C31 C32 C07 C08 C09 C10 C11 C12 C13 C14 C16 C17 C18 C19 C13words C30 C34 C37 C38".split()),
                     ("numeric", "C22 C23 C24 C25 C26 C27 C28 C29 C30 C35 C36 C37 C38".split())):
    for n in names:
        for seed in range(1, 7):
            d = c.unreached(n, which, (), None, seed)
            for f in d.values():
                blocks.setdefault(n, set()).update(f.values())
        print(n, len(blocks.get(n, ())), flush=True)
json.dump({"tree": c.tree(), "blocks": {k: sorted(v) for k, v in sorted(blocks.items())}}, open("/verif/lib/unreached.json", "w"), indent=0)
import shutil
shutil.rmtree(c.work)
