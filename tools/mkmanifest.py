"""Writes MANIFEST.json from tools/levels.json (run by hand)."""
import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
note=json.load(open('/verif/tools/levels.json'))
m=dict(version=1,setup_cmd="true",checks=[],not_applicable=[],notes="fix: commits in /repo are listed in known_findings.json; no hooks were added to /repo.")
for i in ids:
    n=note[i]
    m['checks'].append(dict(property=i,quick_cmd="python3 checks/run.py %s quick"%i,thorough_cmd="python3 checks/run.py %s thorough"%i,evidence_file="evidence/%s.json"%i,technique=n['technique'],level=n['level'],level_note=n['note']))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
