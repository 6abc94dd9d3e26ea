#!/usr/bin/env python3
"""Build and confirm planted bugs.

usage: mkseed.py SPECS.py [id ...]

SPECS.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)],
demo (python source), needs, breaks.  For each one: apply the edits to a scratch
copy of /repo, make patch.diff, check that only original lines change, that the
copy still builds and passes the stable tests, that the demo passes without and
fails with the change; write /verif/seeded/<id>; then run the property's check on
the copy and say whether it reports the violation.  The copy is mounted over
/repo in a private mount namespace for build, tests and demo.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = "0950667"
SEEDED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def in_ns(copy, cmd):
    return sh(f"unshare -m bash -c 'mount --bind {copy} /repo && cd /repo && {cmd}'")


def build(s, quick):
    sid = s["id"]
    work = tempfile.mkdtemp(prefix=f"seed_{sid}_", dir="/tmp/w")
    copy = work + "/r"
    msgs = []
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        for f, old, new in s["edits"]:
            p = f"{copy}/{f}"
            src = open(p, newline="").read()
            if src.count(old) != 1:
                return sid, f"BAD edit: {f} matches {src.count(old)}", ""
            open(p, "w", newline="").write(src.replace(old, new))
        patch = sh(f"cd {copy} && git diff").stdout
        # original lines only
        cur = None
        removed = 0
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
                continue
            if line.startswith("-") and not line.startswith("---"):
                b = sh(f"cd /repo && git blame -s -L{n},{n} HEAD -- {cur}").stdout.split()[0]
                if sh(f"cd /repo && git merge-base --is-ancestor {b.lstrip('^')} {BASE}").returncode:
                    msgs.append(f"line {cur}:{n} is not original ({b})")
                removed += 1
            if line.startswith((" ", "-")) and not line.startswith("---"):
                n += 1
        if removed == 0:
            msgs.append("no original line changed (insertion only)")
        d = f"{work}/seed"
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(f"cd /repo && bash {d}/demo.sh")
        if r.returncode:
            msgs.append("demo fails on unchanged tree:\n" + r.stdout[-1500:])
        r = in_ns(copy, f"bash {d}/demo.sh")
        if r.returncode == 0:
            msgs.append("demo passes with the patch")
        if not msgs and not quick:
            r = in_ns(copy, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {work}/o.json")
            o = json.load(open(work + "/o.json")) if os.path.exists(work + "/o.json") else None
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            if o is None:
                msgs.append("no test result: " + r.stdout[-500:])
            else:
                bad = sorted(set(base) - set(o["passed"]))
                if bad:
                    msgs.append(f"fails tests: {bad[:4]}")
        if msgs:
            return sid, "REJECTED " + "; ".join(msgs), ""
        dst = f"{SEEDED}/{sid}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        r = sh(f"cd /verif && VERIF_REPO={copy} bash check.sh {s['property']} quick")
        v = re.search(rf"VIOLATION property={s['property']}.*", r.stdout)
        tail = r.stdout[-700:]
        if r.returncode == 1 and v:
            return sid, "caught", v.group(0) + " | " + " ".join(tail.split())[:250]
        return sid, f"MISSED (exit {r.returncode})", tail
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    quick = "--fast" in args
    args = [a for a in args if not a.startswith("--")]
    seeds = runpy.run_path(args[0])["SEEDS"]
    ids = [s["id"] for s in seeds]
    assert len(ids) == len(set(ids)), "duplicate ids"
    if args[1:]:
        seeds = [s for s in seeds if s["id"] in args[1:]]
    with ThreadPoolExecutor(4) as ex:
        for sid, status, info in ex.map(lambda s: build(s, quick), seeds):
            print(f"{sid}: {status}\n    {info}", flush=True)


if __name__ == "__main__":
    main()
