import json,sys
p='/verif/tools/notes.json'; n=json.load(open(p))
add=json.load(sys.stdin)
n.update(add)
open(p,'w').write('{\n'+',\n'.join('"%s": {"technique": %s,\n "note": %s}'%(k,json.dumps(v['technique']),json.dumps(v['note'])) for k,v in sorted(n.items()))+'\n}\n')
