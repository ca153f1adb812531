#!/usr/bin/env python3
"""
Single source of properties.jsonl and MANIFEST.json.     python3 tools/make.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
TECH = ('symbolic execution of the real Python code (symbolic ints/bools/strings, all paths), each path and assertion decided '
        'by z3; counterexamples replayed on the unmodified code')


def P(id, title, statement, over, quant, why, files, mechanism, note, state=None, observe=None, technique=TECH):
    p = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    if state:
        p['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        p['anchors']['observe_at'] = observe
    p['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    PROPS.append((p, note, technique))


def not_applicable(id, reason, **kw):
    P(id, note=None, **kw)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(VERIF, 'tools', 'spec.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p, _, _ in PROPS:
        f.write(json.dumps(p) + '\n')
index = json.load(open(os.path.join(VERIF, 'harness', 'index.json')))
na = {x['property'] for x in NA}
checks = []
for p, note, technique in PROPS:
    id = p['id']
    if id in na:
        continue
    assert id in index, id
    checks.append({'property': id,
                   'quick_cmd': f'python3-vt vrun.py check {id} --tier quick',
                   'thorough_cmd': f'python3-vt vrun.py check {id} --tier thorough',
                   'technique': technique,
                   'level': 'model_checking',
                   'level_note': note})
assert {c['property'] for c in checks} == set(index), (sorted(set(index) ^ {c['property'] for c in checks}))
manifest = {'version': 1,
            'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"',
            'checks': checks,
            'not_applicable': NA,
            'notes': 'Checks execute marcel from /repo\'s working tree directly (pure Python, nothing to build); no hooks in '
                     '/repo. See DESIGN.md. Known and fixed findings: known_findings.txt.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    for p, _, _ in PROPS:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(f'{len(PROPS)} properties, {len(checks)} checks, {len(NA)} not applicable')
