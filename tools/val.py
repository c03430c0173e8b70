import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    try: jsonschema.validate(d,s)
    except Exception as e: print(d['id'],e.message)
m=json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
for c in m['checks']:
    f='/verif/'+c['evidence_file']
    if os.path.exists(f): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
    else: print('no evidence',f)
print('ok')
