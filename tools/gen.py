"""write properties.jsonl and MANIFEST.json"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import META
import props

checks, na = [], []
for m in META:
    P = props.PROPS.get(m["id"])
    if P is None:
        na.append(dict(property=m["id"], reason=props.NA.get(m["id"], "no check is registered for it yet")))
        continue
    checks.append(dict(property=m["id"], quick_cmd=f"./check.py {m['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.py {m['id']}", evidence_file=f"evidence/{m['id']}.json",
                       technique=P.technique or "contract-based deductive verification (pyvc -> SMT) with bounded runtime contract checks", level=P.level, level_note=P.note or "see DESIGN.md"))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for m in META:
        f.write(json.dumps(m) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No hooks in /repo. Checks read /repo's working tree on every run; nothing is built ahead of time.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for m in META:
        jsonschema.validate(m, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok", len(checks), "claimed")
except ImportError:
    pass
