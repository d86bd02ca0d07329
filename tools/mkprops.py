"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand, not by the checks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "src/ecoengine/objects/"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, observe=observe, claim=claim, na=na))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
have = {x[:-3] for x in os.listdir(os.path.join(ROOT, "mc", "props")) if x.startswith("P")}
checks, na = [], []
for p in P:
    if p["claim"] and p["id"] in have:
        checks.append(dict(property=p["id"], quick_cmd=f"bash /verif/check.sh {p['id']} quick",
                           thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",
                           evidence_file=f"/verif/evidence/{p['id']}.json",
                           technique="model checking: exhaustive bounded exploration of the real code against an independent reference model",
                           level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, \"/repo/src\"); import ecoengine'",
         checks=checks, not_applicable=na,
         notes="No hooks are needed: every check drives the public API of the code in /repo's working tree (byte-code caches bypassed). "
               "Repairs of genuine defects are the 'fix:' commits listed in known_findings.json under 'fixed'.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed", len(na), "not claimed")
