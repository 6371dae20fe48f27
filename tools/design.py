#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, the properties, the checks' sources,
and planted.txt (what each check said about each planted change). Run from anywhere."""
import glob, json, os, re
from props import P
from tech import T
from why import W
tools = os.path.dirname(os.path.abspath(__file__))
here = os.path.dirname(tools)

def strings(expr):
    return "".join(json.loads('"' + m + '"') for m in re.findall(r'"((?:[^"\\]|\\.)*)"', expr))

def source(i):
    s = open(f"{here}/harness/cmd/{i.lower()}/main.go").read()
    b = s[s.index("mon.Main("):]
    b = b[:b.index("\n}\n")]
    rule = strings(re.search(r"Rule:(.*?)\n\t\t(?:Assumptions|Scenarios):", b, re.S)[1])
    a = re.search(r"Assumptions: \[\]string\{(.*?)\},\n\t\tScenarios", b, re.S)
    ass = [json.loads('"' + m + '"') for m in re.findall(r'"((?:[^"\\]|\\.)*)"', a[1])] if a else []
    sc = re.findall(r'\{Name: "([^"]+)", Quick: ([^,]+), Thorough: ([^,]+),', b)
    req = re.findall(r'"([^"]+)": (\d+)', re.search(r"Require:(.*)", b, re.S)[1])
    race = os.path.exists(f"{here}/harness/cmd/{i.lower()}/RACE")
    return rule, ass, sc, req, race

out = [open(tools + "/design_head.md").read().rstrip("\n"), ""]
planted = {}
for l in open(tools + "/planted.txt"):
    if l.strip() and not l.startswith("#"):
        b, res, note = (l.rstrip("\n").split("\t") + ["", ""])[:3]
        planted[b] = (res, note)
byprop = {}
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    byprop.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
for p in P:
    i = p["id"]
    rule, ass, sc, req, race = source(i)
    out += [f"### {i}: {p['title']}", "", p["statement"], ""]
    out += ["*Monitored.* " + rule, ""]
    out += ["*Oracle.* " + W[i][0], ""]
    out += ["*Why this reaches what the tests cannot.* " + W[i][1], ""]
    out += ["*Cases (quick / thorough).* " + "; ".join(f"{n} {q} / {t}" for n, q, t in sc).replace("crowd.NKinds", "26").replace("len(shapes)", "all shapes") + (". Built with the race detector." if race else "."), ""]
    out += ["*Must have been observed, or the check gives no verdict:* " + ", ".join(f"{n} × {k}" for k, n in req) + ".", ""]
    if ass:
        out += ["*Assumed:* " + "; ".join(ass) + ".", ""]
    if byprop.get(i):
        out += ["*Planted changes:* " + "; ".join(f"`{b}` ({m['needs']}): {planted.get(b, ('not run', ''))[0]}" + (f" ({planted[b][1]})" if planted.get(b, ("", ""))[1] else "") for b, m in byprop[i]) + ".", ""]
out += [open(tools + "/design_tail.md").read().rstrip("\n"), ""]
open(here + "/DESIGN.md", "w").write("\n".join(out))
n = sum(len(v) for v in byprop.values())
print(len(P), "properties,", n, "planted changes,", sum(1 for v in byprop.values() for b, _ in v if b not in planted), "not run")
