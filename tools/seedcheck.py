#!/usr/bin/env python3
"""Run each planted bug's check on a scratch copy with the bug; record which
check reports it in tools/seed_results.json.   usage: seedcheck.py [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
F = f"{V}/tools/seed_results.json"


def main(ids):
    res = json.load(open(F)) if os.path.exists(F) else {}
    have = sorted(os.listdir(f"{V}/seeded"))
    res = {k: v for k, v in res.items() if k in have}
    for s in ids or have:
        meta = json.load(open(f"{V}/seeded/{s}/meta.json"))
        w = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
        try:
            shutil.copytree("/repo", w + "/r", symlinks=True)
            subprocess.run(["git", "apply", f"{V}/seeded/{s}/patch.diff"],
                           cwd=w + "/r", check=True)
            o = subprocess.run(["bash", f"{V}/check.sh", meta["property"]],
                               env=dict(os.environ, VERIF_REPO=w + "/r"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            m = re.search(r"replay=\S*/(C\d+-\S+?)-[0-9a-f]{10}", o.stdout)
            c = re.search(r"^counterexample: (.*)$", o.stdout, re.M)
            res[s] = dict(property=meta["property"], caught=o.returncode == 1,
                          by=(m.group(1).split("-", 1)[1] if m else ""),
                          label=c.group(1)[:90] if c else "")
        finally:
            shutil.rmtree(w)
        print(s, res[s], flush=True)
        json.dump(res, open(F, "w"), indent=1, sort_keys=True)


main(sys.argv[1:])
