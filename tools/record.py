"""(Re)make contracts/proofs.json: digest of every obligation the solvers accept on the current tree -> back end. usage: record.py [PID...]"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import props
from pyvc import discharge
from pyvc.ctx import ctx_for
old = discharge.load_record()
new = {}
byc = {}
for pid in sorted(props.PROPS):
    P = props.PROPS[pid]
    if sys.argv[1:] and pid not in sys.argv[1:]:
        continue
    mods = [importlib.import_module("contracts." + m) for m in P.contracts]
    if not mods:
        continue
    ctx, own = ctx_for(mods)
    cs = [c for g in own for c in g.contracts if P.select(c)]
    rs = discharge.verify(ctx, cs, timeout_ms=40000)
    n = bad = hit = 0
    for r in rs:
        if r.unsupported:
            print(pid, r.name, "OUT OF REACH", r.unsupported[:150])
        for o in r.obls:
            if "digest" in o:
                n += 1
                if o["time"] > 8:
                    print("slow", r.name, o["name"], o["backend"], round(o["time"]))
                hit += o["digest"] in old
                if o["status"] == "proved":
                    new[o["digest"]] = o["backend"].replace("recorded:", "")
                else:
                    bad += 1
                    print(pid, r.name, o["name"], o["status"])
    print(pid, n, "obligations", hit, "already recorded", bad, "not proved", flush=True)
if sys.argv[1:]:
    new = {**old, **new}
json.dump(dict(sorted(new.items())), open(discharge.RECORD, "w"), indent=0)
