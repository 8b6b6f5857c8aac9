#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand, not by a check)."""
import json, subprocess, sys

V = '/verif/'
G = 'src/core/geom/'
A = 'src/core/algorithm/'
M = 'src/core/math/'
U = 'src/core/util/'
I = G + 'implementation/'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, level note
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, hook=hook, state=state))

NA = []
def na(id, title, statement, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=['inputs'], qtext=qtext, why=why, files=files, mech=mech, reason=reason))

exec(open(V + 'tools/table.py').read())

ready = set(subprocess.run([V + 'sim/target/debug/geos-dst', 'list'], capture_output=True, text=True).stdout.split('\n'))
ready = {l.split()[0] for l in ready if l.strip()}
P = [p for p in P if p['id'] in ready]
out = []
for p in sorted(P + NA, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    d = dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
             quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=' '.join(p['why'].split()),
             anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
    if p.get('state'):
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
    if p.get('hook'):
        d['anchors']['hook_needed'] = p['hook']
    out.append(json.dumps(d))
open(V + 'properties.jsonl', 'w').write('\n'.join(out) + '\n')
TECH = 'deterministic simulation with fault injection: '
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n') if ' hooks: ' in l]
man = dict(version=1, setup_cmd='./build.sh',
    hooks=dict(guard='--cfg geos_sim', enable='sim/rustc-wrapper.sh passes --cfg geos_sim (and SanitizerCoverage flags) to rustc for the geos_rs crate only', source_commits=hooks),
    checks=[dict(property=p['id'], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']} thorough",
                 technique=TECH + p['note'][0], level='exploration', level_note=' '.join(p['note'][1].split())) for p in sorted(P, key=lambda p: p['id'])],
    not_applicable=[dict(property=p['id'], reason=' '.join(p['reason'].split())) for p in NA],
    notes='One simulator binary (sim/) decides every claimed property; DESIGN.md describes it.')
json.dump(man, open(V + 'MANIFEST.json', 'w'), indent=1)
open(V + 'MANIFEST.json', 'a').write('\n')
print(len(P), 'claimed', len(NA), 'not applicable')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in out: jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    print('jsonschema missing: run with python3-vt')
