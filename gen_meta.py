#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks = []
for pid, p in PROPS.items():
    tech = []
    if p.get("sym", True):
        tech.append("symbolic execution of the source with Z3")
    if p.get("kani"):
        tech.append("Kani/CBMC bounded model checking")
    note = "Holds for every value within the bounds: %s. Outside: %s. Trusted: the source-to-symbolic transformation and its runtime, Z3%s; %s. Counterexamples are replayed on the unmodified crate." % (p["q"], p["outside"], ", CBMC" if p.get("kani") else "", "; ".join(p["assumptions"]))
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid, "technique": " + ".join(tech), "level": p.get("level", "other"), "level_note": note, "evidence_file": "evidence/%s.json" % pid})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import check, props'", "checks": checks, "not_applicable": [], "notes": "No hooks in /repo. Known findings: known_findings.jsonl. Each check builds what it needs from /repo's current source into build/ (about 15 s)."}, f, indent=1)

# ---- DESIGN.md: generated tables between markers
import re
p = os.path.join(H, "DESIGN.md")
t = open(p).read()


def block(name, body):
    global t
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    if a in t:
        t = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + body + "\n" + b, t, flags=re.S)
    else:
        t = t.replace("@@%s@@" % name, a + "\n" + body + "\n" + b)


cost = {}
cf = os.path.join(H, "cost.json")
if os.path.exists(cf):
    cost = json.load(open(cf))
rows = []
for pid, q in PROPS.items():
    how = "Symbolic execution" if q.get("sym", True) else ""
    if q.get("kani"):
        how = (how + " + " if how else "") + "Kani (" + ", ".join(q["kani"]) + ")"
    rows.append("### %s - %s\n%s\n- decided by: %s%s\n- encoded: %s\n- bounds: %s\n- outside: %s\n- why tests cannot: %s\n" % (
        pid, q["title"], q["statement"], how, (" of parts " + ", ".join(q["reach"]) if q["reach"] else "") + ("; quick tier about %d s" % cost[pid] if pid in cost else ""), ", ".join(q["encoded"]), q["q"], q["outside"], q["why"]))
block("TABLE", "\n".join(rows))
fx = [l[len("fixed: "):].strip() for l in open(os.path.join(H, "known_findings.jsonl")) if l.startswith("fixed:")]
block("FIXED", "\n".join("* " + re.sub(r"^property=(\S+) (\S+) ", r"\1 (\2): ", l) for l in fx))
sd = os.path.join(H, "seeded")
rows = ["| planted bug | property | needs | reported by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(H, "caught.json"))) if os.path.exists(os.path.join(H, "caught.json")) else {}
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mp = os.path.join(sd, n, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "not run")))
block("SEEDED", "\n".join(rows))
open(p, "w").write(t)
