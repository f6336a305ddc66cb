#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique,
         note, state=(), observe=(), level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=list(state),
                  observe=list(observe), level=level))


TV = 'TLA+ spec, TLC exhaustive check + TLC-generated histories replayed on the code, recorded traces judged by TLC'
TRUST = ('Assurance: the design model is exhaustive within the stated '
         'constants; the code is bound to it by judging every recorded event '
         'with TLC. Trusts the projection of floats to fixed point (tolerance '
         'stated in DESIGN.md), TLC and the recording harness.')

exec(open(os.path.join(V, 'bin', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda q: q['id']):
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=a, where=b)
                                         for a, b in p['mech']],
                              hook_needed=None))
        if p['state']:
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c)
                                     for a, b, c in p['state']]
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='bin/setup', checks=[], not_applicable=NA)
for p in sorted(P, key=lambda q: q['id']):
    if p['id'] in [x['property'] for x in NA]:
        continue
    m['checks'].append(dict(
        property=p['id'], quick_cmd='bin/check %s quick' % p['id'],
        thorough_cmd='bin/check %s thorough' % p['id'],
        technique=p['technique'], level=p['level'], level_note=p['note']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
