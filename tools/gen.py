"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import P, NA
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
LN = ('Contracts on the real functions, executed symbolically from /repo\'s current source; every obligation discharged by z3 for all inputs and iterations. '
      'Trusted: the pyvc VC generator, z3, the model of Python builtins and of lxml trees. ')
checks = [dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
               technique='contract-based deductive verification (pyvc + z3), counterexamples replayed on the real code',
               level=p.get('level', 'proof'), level_note=LN + p['note']) for p in P if p['id'] not in NA]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, hooks=dict(guard='EZODF_VERIF', enable='no hooks were needed: nothing in /repo is guarded', source_commits=[]),
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
