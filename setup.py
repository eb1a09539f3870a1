#!/usr/bin/env python3
"""Warms the Go build cache and checks that the specifications parse. Nothing it
leaves behind is needed by the checks."""
import glob, os, subprocess, sys
import check
c = check.Ctx("setup", "quick", 1)
try:
    check.prepare_overlays(c)
    for k in ("plain", "instr", "race", "ae"):
        check.build(c, k)
    bad = 0
    for f in sorted(glob.glob(check.VERIF + "/spec/*.tla")):
        r = subprocess.run(check.JAVA + ["-cp", check.CP, "tla2sany.SANY", f], cwd=check.VERIF + "/spec", capture_output=True, text=True)
        if r.returncode:
            print("does not parse:", f); print(r.stdout[-2000:]); bad = 1
    sys.exit(bad)
except check.Broken as e:
    print(e); sys.exit(1)
finally:
    c.cleanup()
