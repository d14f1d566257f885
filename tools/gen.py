import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import P
from sa import rules
text = ''.join(open(os.path.join(V, 'sa/specs', f)).read() for f in os.listdir(os.path.join(V, 'sa/specs')) if f.endswith('.py'))
text += open(os.path.join(V, 'sa/rules.py')).read()
TECH = 'abstract interpretation of the source against a reference model (trace-partitioned value graph, algebraic normal forms)'
NOTE = ('Static; no code of the repository is run. The public entry points are interpreted abstractly from the current source for symbolic '
        'arguments and every feasible path is compared with a reference function in normal form. Trusts the models of Python built-ins and '
        'libraries in sa/; the curve library, hashes and AES are uninterpreted; loops without a closed form are unrolled to a bound; a path '
        'whose comparison stays open counts as undecided in the evidence, not as a violation.')
NA = json.load(open(os.path.join(V, 'tools/not_applicable.json')))
out, checks = [], []
na = {x['property']: x['reason'] for x in NA}
for p in P:
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech'])))
    assert len(p['title']) <= 80, p['title']
    if p['id'] in na:
        continue
    has = bool(re.search(r"(@ob|@rule)\(\[?['C0-9, ]*\b%s\b" % p['id'], text))
    assert has, p['id']
    rule = bool(re.search(r"@rule\(\[?['C0-9, ]*\b%s\b" % p['id'], text))
    ob = bool(re.search(r"@ob\(\[?['C0-9, ]*\b%s\b" % p['id'], text))
    checks.append(dict(property=p['id'], quick_cmd=f"python3 sa/run.py {p['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 sa/run.py {p['id']}",
                       technique=TECH + (' and syntax-tree/call-graph rules' if rule else '') if ob else 'dataflow and call-graph rules over the syntax tree',
                       level='other', level_note=(p['note'] + ' ' if p['note'] else '') + NOTE))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
m = dict(version=1, setup_cmd='python3 -m compileall -q sa', checks=checks, not_applicable=NA,
         notes='No hooks: the checks read the source of /repo and never run it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'properties', len(checks), 'checks')
