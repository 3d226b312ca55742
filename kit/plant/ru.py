import sys,json,importlib
from engine import unit
mod,pid=sys.argv[1:3]
unit.setup()
if unit.SETUP["errors"]: print(unit.SETUP["errors"])
M=importlib.import_module("contracts."+mod)
from harness import worker
sel=[u for u in M.UNITS[pid] if len(sys.argv)<4 or sys.argv[3] in u.name]
if len(sel)==1: rs=[unit.run_unit(sel[0],pid,"quick",300)]
else: rs=unit.run_units(sel,pid,"quick",300)
for r in rs:
    ok=[o for o in r["obligations"] if o["status"]=="discharged"]
    print("UNIT",r["unit"],"| discharged",len(ok),"vcs",sum(o["vcs"] for o in ok),"paths",r["paths"],"cut",r["cut_paths"],"wall",r["wall_s"],"solver",r["solver_s"],"reached",r["reached"],"unsup",r["unsupported"], "unk", r["unknown_branches"])
    import os
    if os.environ.get("V"): print("   ",[o["obligation"] for o in ok])
    for o in r["obligations"]:
        if o["status"]!="discharged": print("  !!",o["status"],o["obligation"],o["reason"][:1500])
    if r["refuted"]: print("  refuted:",json.dumps(r["refuted"],default=str)[:1500])
    if r["inputs"]: print("  inputs:",json.dumps(r["inputs"],default=str)[:600])
