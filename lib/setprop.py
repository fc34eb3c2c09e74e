"""development helper: setprop.py ID <<< statement : replaces a statement in properties.jsonl"""
import json,sys
V='/verif/properties.jsonl'
def setst(i, **kw):
    ps=[json.loads(l) for l in open(V)]
    for p in ps:
        if p['id']==i: p.update(kw)
    open(V,'w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in ps))
