#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, the check sources, the known findings
and the recorded results for the planted bugs (tools/seeds.json)."""
import glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTRO = open(ROOT + "/tools/design_intro.md").read()
D = {}
cur = None
for line in open(ROOT + "/tools/design_props.md"):
    m = re.match(r"## (P\d\d)\s*$", line)
    if m:
        cur = m.group(1)
        D[cur] = ""
    elif cur:
        D[cur] += line

props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
seeds = {}
if os.path.exists(ROOT + "/tools/seeds.json"):
    seeds = json.load(open(ROOT + "/tools/seeds.json"))

def go(id):
    s = open("%s/harness/props/%s.go" % (ROOT, id.lower())).read()
    m = re.search(r"register\(&mon\.Prop\{(.*?)\n\t\tRun:", s, re.S).group(1)
    strs = lambda t: [x.encode().decode("unicode_escape").encode("latin1").decode() if "\\" in x else x for x in re.findall(r'"((?:[^"\\]|\\.)*)"', t)]
    rule = "".join(strs(re.search(r"Rule:(.*?)(?:\n\t\tAssumptions|\n\t\tQuick)", m, re.S).group(1)))
    a = re.search(r"Assumptions: \[\]string\{(.*?)\n?\t*\},?\n\t\tQuick", m, re.S)
    return rule, strs(a.group(1)) if a else [], re.search(r"Quick:\s*(\d+)", m).group(1), (re.search(r"Thorough:\s*(\d+)", m) or [0, "-"])[1], strs(re.search(r"Require:(.*)", m, re.S).group(1))

out = [INTRO.rstrip(), ""]
for p in props:
    rule, assume, quick, thorough, req = go(p["id"])
    out.append("## %s %s\n" % (p["id"], p["title"]))
    out.append("*Workload and observation.* " + rule[0].upper() + rule[1:] + ".\n")
    out.append(D.get(p["id"], "").strip() + "\n")
    if assume:
        out.append("*Assumptions and limits.*\n" + "\n".join("- " + x for x in assume) + "\n")
    out.append("*Bounds.* %s cases (quick), %s (thorough). A run fails if any of these was never observed: %s.\n" % (quick, thorough, ", ".join(req)))

out.append(open(ROOT + "/tools/design_end.md").read().rstrip() + "\n")
out.append("## Planted bugs\n")
out.append("`tools/seeds.json` records the run of the check of its own property on each bug in `seeded/` (quick tier, seed 1).\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    id = d.split("/")[-2]
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (id, m["property"], m["needs"].replace("|", "\\|"), seeds.get(id, "?")))
out.append("\n## Known findings and repaired defects\n")
out.append("From `KNOWN_FINDINGS.txt`; *fixed* ones are commits in /repo, each found by the check named.\n")
for l in open(ROOT + "/KNOWN_FINDINGS.txt"):
    l = l.strip()
    if l.startswith(("finding:", "fixed:")):
        out.append("- " + l.replace("|", "\\|"))
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
