#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property:
   id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], observe_at"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__), 'props_data.py')).read())
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for e in sorted(P, key=lambda e: e['id']):
        f.write(json.dumps(e, ensure_ascii=False) + '\n')
print(len(P))
