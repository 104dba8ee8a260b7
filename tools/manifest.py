#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that the monitor program implements."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run([root + "/.build/hclmon", "list"], capture_output=True, text=True, check=True).stdout.split()
ids = sorted(i for i in ids if i.startswith("P"))
props = {json.loads(l)["id"]: json.loads(l) for l in open(root + "/properties.jsonl")}
tech = {
    "P23": "race detector plus result comparison under concurrent histories",
    "P24": "before/after snapshots of shared state around monitored calls",
    "P31": "recorded process runs judged by an offline oracle",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "verif", "enable": "not needed: all observation is through the public API, so /repo carries no instrumentation", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is `check.sh ID`: it rebuilds the monitor program from /repo's working tree and runs the cases of one property. See DESIGN.md.",
}
for i in ids:
    assert i in props, i
    m["checks"].append({
        "property": i,
        "quick_cmd": "bash check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s" % i,
        "technique": tech.get(i, "runtime monitor with a reference model as oracle"),
        "level": "exploration",
        "level_note": "the property is decided on each observed execution; executions are sampled by seeded generators with the bounds given in DESIGN.md, not enumerated",
        "evidence_file": "evidence/%s.json" % i,
    })
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
