"""Writes MANIFEST.json from the harnesses that are there."""
import json
import os

R = os.path.dirname(os.path.abspath(__file__))
NA = {}
if os.path.exists(os.path.join(R, "not_applicable.json")):
    NA = json.load(open(os.path.join(R, "not_applicable.json")))
props = [json.loads(x) for x in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    fn = os.path.join(R, "props", i.lower() + ".py")
    if i in NA or not os.path.exists(fn):
        na.append({"property": i, "reason": NA.get(i, "no check yet: the harness for it is not written")})
        continue
    ns = {"LIB": None}
    src = open(fn).read()
    b = ""
    for line in src.splitlines():
        pass
    import ast
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
            try:
                ns[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    cmd = "/opt/venv/bin/python /verif/run.py %s --tier %s"
    checks.append({
        "property": i, "quick_cmd": cmd % (i, "quick"), "thorough_cmd": cmd % (i, "thorough"),
        "technique": "symbolic execution of the instrumented source with z3 deciding every branch and assertion; "
                     "counterexamples and path models replayed on the real code",
        "level": "model_checking",
        "level_note": "bounded: " + ns.get("BOUNDS", "") + ". Outside: " + ns.get("OUTSIDE", ""),
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/verif'); import symx; import z3, h5py\"",
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks were added to /repo. The source of /repo/src/hdf5storage is instrumented in memory on each run."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
