"""Writes settings.json (used by check.py) and MANIFEST.json."""
import json, os, glob
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
conf = json.load(open(os.path.join(HERE, "tools", "conf.json")))
NA = {x["property"]: x["reason"] for x in conf["not_applicable"]}
settings, checks, na = {"properties": {}}, [], []
for p in props:
    pid = p["id"]
    has_rt = os.path.exists(os.path.join(HERE, "rt", pid.lower() + ".py"))
    has_pr = os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    if pid in NA or not (has_rt or has_pr):
        na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
        continue
    c = dict(conf["default"])
    c.update(conf["properties"].get(pid, {}))
    level = c.pop("level", None) or ("proof" if has_pr else "exploration")
    technique = c.pop("technique", None) or (
        "contracts on the real functions, verification conditions generated from /repo's source and discharged by z3/cvc5; counter models and bounded cases replayed on the real code"
        if has_pr else "contract evaluated at run time on the real code over generated cases (bounded stand-in, no obligation discharged)")
    note = c.pop("level_note", "")
    settings["properties"][pid] = dict(level=level, **c)
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       technique=technique, level=level, level_note=note or "see DESIGN.md"))
json.dump(settings, open(os.path.join(HERE, "settings.json"), "w"), indent=1)
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na, notes=conf.get("notes", ""))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sch)
        assert len(p["statement"].split(". ")) <= 3, p["id"]
except ImportError:
    print("not validated")
print(len(checks), "checks;", len(na), "not applicable")
