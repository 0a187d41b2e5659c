"""Writes MANIFEST.json from lib/props.py's CHECKS and the table below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/lib")
import props
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for i in ids:
    if i in props.CHECKS:
        tech, note = props.INFO[i]
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i,
                       "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by /verif/lib/vlib.py when it builds /verif/harness)",
               "source_commits": ["4517ea0"]},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in props.CHECKS],
     "notes": "TLA+ specification in /verif/spec, checked and evaluated by TLC; harness in /verif/harness; see DESIGN.md"}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks")
