#!/opt/veriftools/pyvenv/bin/python
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
claims = json.load(open(H + '/claims.json'))
TECH = ('contract-based deductive verification: contracts on the real C++ code, obligations generated by symbolic '
        'execution of its LLVM IR with inductive loop summaries, discharged by z3')
m = dict(version=1, setup_cmd='./tools_check.sh', checks=[], not_applicable=[])
for p in props:
    c = claims['claimed'].get(p['id'])
    if c:
        m['checks'].append(dict(property=p['id'], quick_cmd='./run.py %s --tier quick' % p['id'],
                                thorough_cmd='./run.py %s --tier thorough' % p['id'], technique=TECH, level='proof',
                                level_note=c + ' ' + claims['common']))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=claims['not_applicable'][p['id']]))
m['notes'] = claims['notes']
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
