#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = 'symbolic execution of the LLVM IR of the current sources, every branch and assertion decided by Z3/cvc5; counterexamples replayed natively'
NOTE = ('Bounded: holds for every number (unbounded rationals/integers) within the shapes listed in the evidence (dimensions, numbers of constraints, '
        'infinity patterns, expression kinds). Trusts clang, the executor in engine/, Z3, the GMP/MPFR contracts and the oracles in harness/.')
def prop(id, title, statement, over, text, why, files, mech, claim=True, note=None, na=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]['_note'] = note or NOTE

exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

checks = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        n = p.pop('_note', None)
        if n:
            checks.append(dict(property=p['id'], quick_cmd='python3 tools/vp.py %s --tier quick' % p['id'],
                               thorough_cmd='python3 tools/vp.py %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='other', level_note=n))
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 tools/vp.py setup', checks=checks, not_applicable=NA,
         notes='All checks share one driver (tools/vp.py), one executor (engine/) and the harnesses in harness/; see DESIGN.md. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), sch)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:', len(P), 'properties', len(checks), 'claimed')
except ImportError:
    print('jsonschema missing; run with python3-vt')
