import json, jsonschema, sys, glob
V='/root/.vp/'
s=json.load(open(V+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l), s)
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m, json.load(open(V+'MANIFEST.schema.json')))
e=json.load(open(V+'EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)), e)
ids={json.loads(l)['id'] for l in open('/verif/properties.jsonl')}
have={c['property'] for c in m['checks']}|{n['property'] for n in m.get('not_applicable',[])}
print('missing', ids-have, 'extra', have-ids)
