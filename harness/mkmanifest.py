import json,sys
sys.path.insert(0,'/verif/harness')
from checks import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
NOTES=json.load(open('/verif/harness/notes.json'))
m=dict(version=1,setup_cmd="./setup.sh",checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in CHECKS:
        m['checks'].append(dict(property=i,quick_cmd="/opt/venv/bin/python check.py %s --tier quick"%i,
          thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,
          technique=NOTES[i]['technique'],level="model_checking",level_note=NOTES[i]['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=NOTES[i]['na']))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),len(m['not_applicable']))
