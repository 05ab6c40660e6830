#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from checks import CHECKS
from props import P
import props

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}) + "\n")
na = getattr(props, "NA", {})
checks = [{"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
           "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"],
           "technique": p["technique"], "level": CHECKS[p["id"]]["level"], "level_note": p["note"]}
          for p in P if p["id"] in CHECKS]
for p in P:
    if p["id"] not in CHECKS:
        assert p["id"] in na, p["id"]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "g++ --version && python3 --version", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")

# the generated parts of DESIGN.md
import re


def scenarios(src):
    t = open(os.path.join(ROOT, "harness", src)).read()
    inc = re.findall(r'#include "(C[0-9]+\.cpp)"', t)
    for i in inc:
        t += open(os.path.join(ROOT, "harness", i)).read()
    out = []
    for m in re.finditer(r'MC_SCENARIO\(\s*"([^"]*)",\s*((?:"[^"]*"\s*)+),', t):
        out.append((m.group(1), "".join(re.findall(r'"([^"]*)"', m.group(2)))))
    return out


def block(s, name, text):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text + s[j:]


text = ""
for p in P:
    c = CHECKS[p["id"]]
    text += "### %s %s\n%s\n" % (p["id"], p["title"], p["statement"])
    text += "* quantified over: %s. Tests: %s.\n* oracle: %s\n" % (p["qtext"], p["why"], p["note"])
    try:
        ev = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
    except OSError:
        ev = None
    if "src" in c:
        for n, b in scenarios(c["src"]):
            text += "* scenario `%s`: %s\n" % (n, b)
    if ev and not ev["violations"] and ev["tier"] == "quick":
        cov = ev["coverage"]
        n = cov.get("traces_validated_against_impl", cov.get("evaluations", 0))
        text += "* quick: %s %s, %d s\n" % (format(n, ","), "executions" if "states" in cov else "evaluations", round(ev["wall_s"]))
    text += "\n"
bugs = "| bug | needs | breaks |\n|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    bugs += "| %s | %s | %s |\n" % (d, m["needs"], m["what_it_breaks"])
missed = getattr(props, "MISSED", [])
bugs += "\nEach is caught by the check of its property" + (" except " + ", ".join(missed) if missed else "") + ".\n"
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
s = block(block(s, "properties", text), "bugs", bugs)
open(path, "w").write(s)
