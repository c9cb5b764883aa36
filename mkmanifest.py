import json, sys
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = {}
exec(open('/verif/manifest_notes.py').read())
checks = []
for p in props:
    if p['id'] in NA: continue
    if p['id'] not in NOTE: continue
    checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='VERIF_TIER=thorough ./check %s --thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='contract-based deductive verification of the compiled real code (LLVM IR verification conditions, ring normaliser + z3)',
        level='proof', level_note=NOTE[p['id']]))
na = [dict(property=k, reason=v) for k, v in NA.items()]
for p in props:
    if p['id'] not in NOTE and p['id'] not in NA: na.append(dict(property=p['id'], reason='check not built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='No hooks in /repo: the verifier reads the unmodified sources. See DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
