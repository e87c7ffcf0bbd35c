'''Regenerates MANIFEST.json from properties.jsonl and the checks present.'''
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'checks', i.lower() + '.py')) and i in NOTES:
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick ./check ' + i,
                           thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           technique=NOTES[i]['technique'], level='model_checking', level_note=NOTES[i]['note']))
    else:
        na.append(dict(property=i, reason='the check of this property is not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
