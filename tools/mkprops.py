"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
F = 'ta-lib-rt/c/src/ta_func/'
P = []
CHECK = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


def claim(id, technique, note, level='proof'):
    CHECK[id] = dict(property=id, quick_cmd='python3-vt check.py ' + id, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + id,
                     technique=technique, level=level, level_note=note)


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
M = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[CHECK[p['id']] for p in P if p['id'] in CHECK],
         not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in P if p['id'] not in CHECK],
         notes='Every check extracts LLVM IR from /repo on each run, generates verification conditions for the functions under contract and discharges them with z3; see DESIGN.md.')
json.dump(M, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid:', len(P), 'properties,', len(CHECK), 'claimed')
except ImportError:
    pass
