"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks
m = {"version": 1, "setup_cmd": "python3 /verif/vt/setup.py", "checks": [], "not_applicable": [
        {"property": k, "reason": v} for k, v in sorted(checks.NOT_APPLICABLE.items())],
     "notes": "All checks go through run.py; they compile /repo's working tree into /verif/.build (cached by content). See DESIGN.md."}
for k in sorted(checks.CHECKS):
    c = checks.CHECKS[k]
    m["checks"].append({"property": k, "quick_cmd": "python3 /verif/run.py %s --quick" % k,
                        "thorough_cmd": "python3 /verif/run.py %s --thorough" % k,
                        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
ids = {json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))}
assert ids == set(checks.CHECKS) | set(checks.NOT_APPLICABLE)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
