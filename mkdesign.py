"""Puts DESIGN.md together."""
import ast
import glob
import json
import os
import re

R = os.path.dirname(os.path.abspath(__file__))


def consts(fn):
    out = {"H": []}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
                "BOUNDS", "OUTSIDE", "ASSUMPTIONS", "TIME"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef) and n.name.startswith("h_"):
            out["H"].append(n.name)
    return out


props = [json.loads(x) for x in open(R + "/properties.jsonl")]
how = {}
cur = None
for line in open(R + "/design/props.md"):
    if re.match(r"C\d\d$", line):
        cur = line.strip()
        how[cur] = []
    elif line.strip():
        how[cur].append(line.lstrip(": ").rstrip())
out = [open(R + "/design/head.md").read(), "\n## 2. Properties\n"]
for p in props:
    i = p["id"]
    c = consts(R + "/props/%s.py" % i.lower())
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("Decided by `props/%s.py` (%s); %s\n" % (i.lower(), ", ".join("`%s`" % h for h in c["H"]), " ".join(how[i])))
    out.append("Bounds: %s.\n" % c["BOUNDS"])
    out.append("Outside: %s.%s\n" % (c["OUTSIDE"], "" if not c.get("ASSUMPTIONS") else " Assumed: " + "; ".join(c["ASSUMPTIONS"]) + "."))
cost = json.load(open(R + "/design/cost.json"))
out.append("## 3. Cost of the quick checks\n\nOn 8 cores; from the evidence of one run on the unchanged tree.\n")
out.append("| check | jobs (exhausted) | paths | assertions | queries | solver s | replays | inexact | wall s |\n|---|---|---|---|---|---|---|---|---|")
for i in sorted(cost):
    d = cost[i]
    out.append("| %s | %s (%s) | %s | %s | %s | %s | %s | %s | %s |" % ((i,) + tuple(d)))
out.append("\n## 4. Planted bugs\n\nIn `/verif/seeded`; each passes the 2450 stable tests and has a demonstration. "
           "Caught = the quick check of the property exits 1 with its VIOLATION line. Where a check missed one at first it was "
           "strengthened; what is said under \"caught\" is of the last run.\n")
caught = json.load(open(R + "/design/caught.json"))
out.append("| bug | what it does | needs | caught |\n|---|---|---|---|")
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, "not run")))
k = json.load(open(R + "/known_findings.json"))
out.append("\n## 5. Defects that were found and fixed (`fix:` commits in /repo)\n")
out.extend("- " + x[len("fixed: "):] for x in k["fixed"])
out.append("\nKnown findings that are not fixed: %s.\n" % ("none" if not k["known"] else "; ".join(map(str, k["known"]))))
out.append(open(R + "/design/tail.md").read())
open(R + "/DESIGN.md", "w").write("\n".join(out))
