"""Re-execute the single case recorded in a replay artefact."""
import importlib, json, sys
from . import core
a = json.load(open(sys.argv[1]))
print("recorded:", a["what"])
r = core.run_case((f"mc.props.{a['property']}", a["sub"], a["case"]))
for v in r["violations"]:
    print("reproduced:", v["what"], json.dumps(v["detail"], indent=1))
sys.exit(1 if r["violations"] else 0)
