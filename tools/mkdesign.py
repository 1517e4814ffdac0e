"""Writes DESIGN.md from tools/design.in.md, tools/levels.json, properties.jsonl and tools/seeds.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(V + "/tools/levels.json"))
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    n = lv[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", "Level: **%s**. %s" % (n["level"], n["note"])]
    for k, t in (("how", "How"), ("bounded", "Bounded stand-in"), ("why", "Why tests cannot settle it")):
        if n.get(k):
            out += ["", "%s: %s" % (t, n[k])]
    out.append("")
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seeds.json")) if os.path.exists(V + "/tools/seeds.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], res.get(s, "")))
t = open(V + "/tools/design.in.md").read()
t = t.replace("PROPERTIES_TABLE", "\n".join(out)).replace("SEEDS_TABLE", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
