#!/bin/bash
# Nothing to build: the encoding is made from /repo's source on every run.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
x = z3.Int("x")
s = z3.Solver()
s.add(x > 3, x < 5)
assert s.check() == z3.sat and s.model()[x].as_long() == 4
print("z3", z3.get_version_string())
P
