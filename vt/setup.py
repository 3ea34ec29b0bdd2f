"""setup_cmd: compiles everything once, so that the checks find it in the cache."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks
try:
    build.build([(n, v, f) for n, (v, f) in sorted(checks.BINS.items())])
except build.BuildError as e:
    print(e)
    sys.exit(0)     # the checks report it
