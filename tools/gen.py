#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-partitioned abstract interpretation of the source (types, intervals, heap shape); nothing is executed'
NOTE_AI = ('Sound up to the models of the Python built-ins in sa/models.py and the field-type invariants in sa/engine.py; '
           'paths whose feasibility rests on a fact the abstraction cannot express are counted as undecided, not reported.')
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None, claim=True, reason=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    PROPS.append((d, tech, note))
    if not claim:
        NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, _, _ in sorted(PROPS, key=lambda x: x[0]['id']):
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
na = {x['property'] for x in NA}
checks = []
for d, tech, note in sorted(PROPS, key=lambda x: x[0]['id']):
    if d['id'] in na:
        continue
    checks.append(dict(property=d['id'], quick_cmd=f"python3 check.py {d['id']}",
                       thorough_cmd=f"python3 check.py {d['id']} --thorough", technique=tech, level='other',
                       level_note=note))
man = dict(version=1, setup_cmd='python3 check.py --list', checks=checks, not_applicable=NA,
           notes='No hooks in /repo: every check reads the source. See DESIGN.md; known_findings.txt lists the defects fixed.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'claimed')
