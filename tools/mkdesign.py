'''Assembles DESIGN.md.'''
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda n: open(os.path.join(V, 'tools', n)).read()
fixed = []
for l in open(os.path.join(V, 'known_findings.jsonl')):
    try:
        e = json.loads(l)
    except ValueError:
        continue
    if e.get('status') == 'fixed':
        fixed.append('- %s %s' % (e['id'], e['what']))
    else:
        fixed.append('- %s OPEN property=%s %s' % (e['id'], e['property'], e['what']))
seeds = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
try:
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
except OSError:
    caught = {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    seeds.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], caught.get(i, '')))
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(read('design.head.md') + '\n' + read('design.props.md') + '\n'
            + read('design.tail.md').replace('@FIXED@', '\n'.join(fixed)).replace('@SEEDS@', '\n'.join(seeds)))
