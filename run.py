#!/usr/bin/env python3
"""python3 run.py <property> [--quick|--thorough] [--target T] [--replay FILE]"""
import os, sys
PY = "/opt/veriftools/pyvenv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(PY) and sys.executable != PY and os.environ.get("VT_PY") != "1":
    os.environ["VT_PY"] = "1"
    os.execv(PY, [PY, os.path.join(here, "run.py")] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, "vt"))
import driver
try:
    rc = driver.main(sys.argv)
except driver.build.BuildError as e:
    print("BUILD ERROR: %s" % e)
    rc = 2
sys.stdout.flush()
sys.exit(rc)
