#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, checks, checks2

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
c = vf.Ctx(prop, tier)
if prop == "setup":                     # the Java operator overrides; everything else is built by the checks
    c.classes()
    vf.shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(0)
try:
    rc = (getattr(checks, prop.lower(), None) or getattr(checks2, prop.lower()))(c)
except Exception as e:
    # an error of the check unless violations were already established
    traceback.print_exc()
    if c.violations:
        c.notes.append("ended early: " + str(e)[:300])
        rc = c.finish()
    else:
        rc = 2
sys.stdout.flush()
os._exit(rc)
