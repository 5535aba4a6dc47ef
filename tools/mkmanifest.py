#!/usr/bin/env python3
"""Writes MANIFEST.json. A check appears once its monitor exists."""
import json, os
MODEL = "runtime monitor: differential oracle (independent reference model of the IDL) over randomly generated multi-file programs run through the real compiler"
NOTE = "Observed executions only: random worlds of source files within the generator's bounds (see DESIGN.md), deterministic in VERIF_SEED. Trusts the reference model, the Avro JSON reader of the monitor and serde_json."
T = {
 "C01": (MODEL, NOTE), "C02": (MODEL, NOTE), "C03": (MODEL, NOTE), "C05": (MODEL, NOTE), "C06": (MODEL, NOTE),
 "C07": (MODEL, NOTE), "C08": (MODEL, NOTE), "C16": (MODEL, NOTE), "C19": (MODEL, NOTE), "C21": (MODEL, NOTE),
}
exec(open(os.path.join(os.path.dirname(__file__), "manifest_more.py")).read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
     "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": T[i][2] if len(T[i]) > 2 else "exploration", "level_note": T[i][1]}
    for i in ids if i in T],
    "not_applicable": [{"property": i, "reason": "its monitor is still being built"} for i in ids if i not in T]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
